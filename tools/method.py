METHOD={
'L01':'`Layout.tla` defines a problem (model class, lock flags, counts, observations) and the owner of each state element. MCLayout enumerates problems, `Laws`: the ranges partition 0..Nstate-1. Driver layout.py builds each problem, determines which parameter each packed element is a copy of by the values, and asks all index functions.',
'L02':'As L01, for the elements of x: the driver changes one observation (or parameter) at a time and records which elements of x change.',
'L03':'As L01: histories of pack, unpack, ingest on arrays of states; LayoutTrace compares with the parameters the specification says are in the state.',
'L04':'As L01: the specification gives, per measurement, the set of state elements it may depend on and the set that must be stored; the driver records the CSR structure, dependency by perturbation, and difference quotients.',
'L05':'`Solve.tla`: state = weights and immutable integer residuals; rejection as a fixpoint (trigger at 5 sigma, mark at 4 sigma) in exact integers; `Laws`: monotone, nothing left beyond 5 sigma, norm does not grow. MCSolve explores histories of solve/edit/flip/reseed and exports them; the driver replays them with mrcal.optimize() and reports weights, x, statistics, which TLC compares. MCSolveAny: histories on the problems of MCResidual, judged by relations.',
'L06':'`Residual.tla` (on `Pose.tla`): exact camera-frame positions of corners and points; the pixel errors and weights are part of the case, so the expected x is an integer vector which TLC compares. MCResidual generates rigs, poses, weights, locks. Driver residual.py also observes the functions that select parts of x.',
'G01':'`Pose.tla`/`Rat.tla`: poses as integer quaternions and rational translations. MCPose enumerates histories of operations; `Laws`: associativity, inverses. The driver executes them in the r/rt/Rt/qt representations, with out=, aliasing, broadcasting, and gradients.',
'G02':'`Projection.tla`: lens functions in exact rational arithmetic on directions where they are rational; model-checked for inverse and scale invariance. Driver projection.py calls project/unproject and the per-model functions in every calling style.',
'G03':'`Stereo.tla` (on `Pose.tla`): the rectified pose as an exact integer rotation, the detected and clamped center, the number of pixels, the limits, and the point a disparity means as an exact rational. MCStereo generates pairs in arbitrary poses, fields of view, resolutions, margins, disparity types and mismatched pairs. Driver stereo.py builds the rectified pair, reads it back, samples the maps, and asks for ranges dense and sparse.',
 'M01':'`Lens.tla`: grammar of names with a base name and key=value pairs and the parameter-count rules; MCLens edits names. Observed in python (num_params, metadata, knots) and C (from_name, name, type_from_name, buffer sizes).',
'M02':'`Model.tla`: the abstract object (lens, pose, imagersize, region, optimization inputs, indices) and all operations with their success condition; MCModel enumerates histories on two objects.',
'M03':'`ModelFile.tla`: a file is a list of key-value entries plus a layout; Python() and C() give the result of each reader; `Laws`: they agree where both accept. Files are written in 16 layouts.',
'V01':'`Args.tla`: an abstract problem description and the predicate of which are well-formed; `Laws`: well-formed implies that everything indexed exists and all frames and points are observed. MCArgs explores all edits (sizes, indices, flags, faults in the representation of each array) to depth 2; driver args.py builds the arrays, calls the optimizer and all query functions, and reports accepted/rejected/crashed and whether anything was modified.',
'C01':'`Corners.tla` defines the meaning of a corners file (rows, weights, images, paths, globs, frames) and when there is none; strings are handled character by character by `Text.tla`. MCCorners edits base files (blocks, tokens, names, options), `Laws`: indices consecutive and ordered, every camera present, each kept image above the minimum. Driver corners.py writes the file in a scratch directory (or gives a stream, or a stand-in detector on PATH), calls the function, CornersTrace compares frames, cameras, paths, pixels, weights, the stored file and whether the detector ran.',
'C02':'`Text.tla`: the frame number is the digit run such that all names of the camera are prefix+digits+suffix. MCNames edits lists of names, `Laws`: that run is unique. NamesTrace compares the map returned.',
'C03':'`CornerTools.tla` defines which rows are culled (integer arithmetic in quarter pixels) and where the corners of a rotated grid go; `Laws`: rotations form a cyclic group and keep neighbours adjacent, culling touches only the level. The tools are run on the files and the whole output is compared.',

'T01':'`Traverse.tla` is the traversal as a state machine: a step takes any open link of minimal total cost. TLC walks all its behaviours and checks on them that the costs are those of Bellman-Ford, each reachable sensor is done once, and hops are minimal. MCTraverse edits graphs, array layouts, callbacks and faults; the calls of the callback recorded from the C and the python implementation are replayed as behaviours of that machine.',
'T02':'`Seeding.tla` (on `Pose.tla`, `Residual.tla`, `Traverse.tla`): the exact poses relative to camera 0, and which sets of views tie the cameras together. MCSeeding generates rigs and views, `Laws`: consistency of the compositions. The driver makes exact observations with plain numpy and the results are compared as integers (pose matrix times its denominator).',
'L07':'`Regularization.tla`: every term as a number over a root (<<num,n2,unit>>), and the terms a problem has. MCRegularization generates lenses, parameter values, imagers and locks; `Laws`: at rest all terms are 0, and the pair of a knot sees all of its deviation. The tail of x is compared with the terms (root applied by the driver as a scale of the comparison).',
'G08':'`Triangulation.tla`: where rays meet, the rational point of the geometric, l1 and linf methods, the quadratic equations between the distances of mid2 and wmid2 with the signs of their convergence tests, the outputs of triangulate(), and the variance of pixels propagated. MCTriangulation generates rays, `Laws`: the middle is equally far from both rays, l1 leaves one ray, exchange of the cameras. The driver compares derivatives and call forms; points are compared as integers.',
 'G05':'`Polygon.tla`: inside, boundary and difference by crossing numbers in exact integers. MCPolygon generates pairs of simple polygons (holes, pieces, touching edges), orientations and array layouts; `Laws`: the answer does not depend on orientation or first corner, and P minus P is empty. Every point of a grid finer than the polygons is looked up in the pieces the code returns.',
'M04':'`Formats.tla` (on `Pose.tla`) says what a camera with a rational pose is in each format (CAHVOR vectors, ROS matrices, kalibr chains), what a file with edits means, and what each format cannot hold. MCFormats generates cameras, files and edits, `Laws`: reading what was written is the same camera, and axes are orthogonal. The driver writes and reads with the library and the tools (in-process, in a scratch directory); all numbers are judged as exact integers by FormatsTrace.',
'U01':'`Uncertainty.tla` (on `Layout.tla`): which observations report a motion of the camera, through which variables; which variables the uncertainty depends on; which questions have no answer. MCUncertainty generates problems and questions, `Laws`: nothing depends on other cameras\' intrinsics, etc. The driver solves for the propagation densely (by differences, with plain numpy) along these paths, and compares.',
'U02':'`TriNoise.tla` (on `Layout.tla`): which covariances are returned, which variables the point of a pair depends on, what is refused. MCTriNoise generates calibrations, pairs, stacks, noise and faults, `Laws`: the dependencies are those of the two cameras (and frames), symmetric, never the board shape. The driver differentiates the noise-free triangulation and compares all returned covariances with the dense propagation.',
'D01':'`Diff.tla` (on `Pose.tla`): which transformation relates two cameras (given, of the models, none, to be fitted, exact rational poses), which points take part in a fit, the shape of grids and stacks, what is refused, and the exact resolution of pinhole, stereographic and equirectangular models. MCDiff generates sets of 1 to 4 cameras, distances, grids, pairs, fits with good, bad and missing points; `Laws`: the transformation of the poses maps one into the other, at infinity it has no translation, that of a pair and its converse cancel. The driver builds cameras with these relations and computes the differences from project()/unproject() alone.',
'I01':'`Images.tla`: which arrays can be stored in which files, the samples then in the file, what reading gives for each type of file and request (copy, replicate, luminance, stretch: exact integers), and all 37 formulae of color maps at 24ths in fixed point. MCImages generates arrays, layouts, names, damaged files, types and ranges of numbers; `Laws`: what is written reads back the same, stretching covers 0..255, negative formulae mirror the positive. The driver parses files with its own readers, and writes those to be read with its own writers (all PNG filters, palettes, bit depths, PNM).',
'I02':'`Warp.tla` (on `Pose.tla`): the exact rational transformation that maps use (intrinsics only, infinity, distance, plane), the pixel seen through it by pairs of pinhole cameras in thousandths of a pixel, which questions are refused, the scale of focal lengths that makes points just fit (a least fraction), scaled sizes and centers, and the samples that transform_image() takes. MCWarp generates cameras, poses, planes, fits, scales, images and maps; `Laws`: the point seen lies on the plane, fitted points are all inside, a camera sees itself. Other lenses are compared with project() and unproject() of the real library along the transformation of the specification.',
'G09':'`Align.tla` (on `Pose.tla`): the integer moments of weighted sets, whether they fix a rotation (exact rank), when a rotation is optimal (symmetry and no better direction), and the answers to the small problems (eigenvalues in order, vectors aligned, quaternions of all half-turns). MCAlign generates sets, weights, rational motions, singular sets, scales, layouts and stacks; `Laws`: a moved set has the rank of the original, the true motion is optimal. AlignTrace judges the returned rotations as integers.',
'Q01':'`Factor.tla` is the state machine of the object (holds nothing or matrix k; init, clear, solve, ask), with exact determinants, and for each part of the system what solving means as an equation of integers. MCFactor generates matrices, histories, invalid arguments; `Laws`: refused or cleared is empty, accepted is nonsingular. FactorTrace replays the recorded histories as behaviours of that machine.',
'K01':'`Synthetic.tla` (problems from `Rigs.tla`): what is seen, what each mode requires, which numbers may change. MCSynthetic generates problems, noise, rigs, modes and ranges; `Laws`: the modes imply each other as documented. The driver evaluates the residuals with optimizer_callback(), and projects the corners at the returned poses; SyntheticTrace decides residuals, what changed, and visibility in thousandths of pixels.',
'F01':'`Match.tla`: where the patch of image 0 and the search in image 1 lie, the patch (integers at half pixels), the score of every position for six comparison functions, the best one, and the paraboloid through 9 scores. MCMatch generates pairs of images (some with the patch planted), pixels, seven kinds of homographies, sizes, radii, arrays and bad arguments; `Laws`: maps and inverses agree, the patch is centered at the estimate, a perfect score means an equal patch, a paraboloid is its own fit. MatchTrace compares all returned scores, and the equations of the subpixel optimum.',
}

PROPS=[]; NA=[]
def P(id,title,statement,over,text,why,files,mech,note,level='model_checking',technique=None,observe=None):
    PROPS.append(dict(id=id,title=title,statement=statement,over=over,text=text,why=why,files=files,mech=mech,note=note,level=level,
       technique=technique or 'TLA+ specification model-checked with TLC; behaviours exported from it replayed into the code, and observations of the code judged by TLC against the specification',observe=observe))
P('L01','The state vector is partitioned exactly as the state_index/num_states report',
 'For every optimization problem, each element of the packed state vector returned by optimizer_callback() belongs to exactly one parameter, in the order intrinsics (the optimized subset of each camera), extrinsics, frames, non-fixed points, board warp; parameters that are not being optimized are absent. num_states(), num_states_...() and num_intrinsics_optimization_params() report the sizes of these blocks, and state_index_...(i) reports where item i is, or None if it is not in the vector or is out of range. The answers are the same whether the problem is given as arrays or as explicit dimensions.',
 ['configurations','inputs'],'all problems: lens models, lock flags, numbers of cameras, extrinsics, frames, points, fixed points, board, point and triangulated observations',
 'The tests look at a couple of hand-made problems; the lock flags, fixed points, missing cameras and lens models multiply to far more combinations, and an index that is off only in one of them passes.',
 ['mrcal.c','mrcal-pywrap.c','mrcal.h'],[('index and count functions','mrcal.c: mrcal_state_index_...(), mrcal_num_states_...()'),('python wrappers','mrcal-pywrap.c: state_index_generic()')],
 'Exhaustive within the constants of MCLayout; the code is observed on problems exported by TLC and on larger random ones. The owner of each state element is found from the values of b_packed, not from the index functions. Trusted: TLC, the driver that builds the problem.')
P('L02','The measurement vector is partitioned as the measurement_index functions report',
 'For every optimization problem, each element of the measurement vector x belongs to exactly one of: a coordinate of a chessboard corner of a board observation, a coordinate of a point observation, a pair of observations of one triangulated feature, or a regularization term; in that order, with boards in observation order, row-major. num_measurements_...() and measurement_index_...(i) report this layout, and decode_observation_indices_points_triangulated(i) names the pair of observations that measurement i compares.',
 ['configurations','inputs'],'all problems, as in L01, with any pattern of board, point and triangulated observations and any regularization selection',
 'The tests check a few sizes; which observation ends up in which element of x is not checked over the combinations of observation types, flags and set sizes.',
 ['mrcal.c','mrcal-pywrap.c'],[('index and count functions','mrcal.c: mrcal_measurement_index_...(), mrcal_num_measurements_...()'),('evaluation','mrcal.c: optimizer_callback()'),('pair decoding','mrcal.c: mrcal_decode_observation_indices_points_triangulated()')],
 'As L01. The owner of each element of x is found by perturbing single observations.')
P('L03','pack_state, unpack_state and ingest_packed_state are mutually inverse',
 'unpack_state() turns the packed state returned by optimizer_callback() into the parameter values of the problem, and pack_state() is its exact inverse, for single state vectors and for arrays of them. ingest_packed_state(b) writes b into the parameter arrays so that a following optimizer_callback() returns b, changes exactly the parameters that are being optimized, and leaves its argument alone.',
 ['configurations','inputs'],'all problems, as in L01; one or many state vectors at a time',
 'The tests ingest one or two problems with everything unlocked; partial locks, several cameras, fixed points and distortion-free models are other code paths.',
 ['mrcal.c','mrcal-pywrap.c','mrcal/utils.py'],[('packing','mrcal.c: mrcal_pack_solver_state_vector(), mrcal_unpack_solver_state_vector()'),('ingest','mrcal/utils.py: ingest_packed_state()')],
 'As L01.')
P('L04','The Jacobian has the shape, sparsity and values the measurements really have',
 'optimizer_callback() returns a Jacobian with one row per measurement and one column per state element; the columns stored in each row are those of the variables that this measurement involves (its camera intrinsics, its extrinsics unless at the reference, its frame or point, the board warp), no measurement depends on a variable outside of these, and the values are the derivatives. The call does not modify its inputs, and x and b do not depend on whether the Jacobian or the factorization was requested.',
 ['configurations','inputs'],'all problems, as in L01, at generic parameter values',
 'test-gradients checks derivatives for a fixed problem with a fixed set of observations; mixed problems (triangulated, fixed points, locked groups, cameras at the reference, sparse splines) are not enumerated.',
 ['mrcal.c','mrcal-pywrap.c'],[('residuals and gradients','mrcal.c: optimizer_callback(), _mrcal_num_j_nonzero()'),('sparse matrix','mrcal-pywrap.c: csr_from_cholmod_sparse()')],
 'As L01. Dependencies are found by perturbing each state element; derivative values are compared with central differences (relative 1e-3), so only gross derivative errors are decided.')
P('L05','optimize() changes only what it may, and rejects outliers exactly',
 'In every history of optimize() calls: locked intrinsics, extrinsics, frames, the warp, and the fixed points stay bit-identical, and so do the observed pixels; the seed is never made worse; the returned b_packed, x, rms error and number of outliers are those of the arrays as they are left. A weight only ever changes if outlier rejection was requested, by a change of sign from inlier to outlier: as long as any corner coordinate is more than 5 standard deviations out, all the corners more than 4 out are rejected and the problem is solved again, so that nothing beyond 5 remains and nothing is rejected otherwise; point observations are not rejected, and former outliers are respected and kept.',
 ['histories','inputs'],'all sequences of optimizations, seeds, edits of observations and weights, on any problem with any locks',
 'The tests solve a few simulated calibrations and look at the accuracy; rejection decisions corner by corner, repeated solves, previously rejected observations, weights other than 1 and partially-locked problems are not checked.',
 ['mrcal.c','mrcal-pywrap.c'],[('outlier rejection','mrcal.c: markOutliers()'),('solver','mrcal.c: mrcal_optimize()'),('python wrapper','mrcal-pywrap.c: _optimize()')],
 'Rejection is exact in problems where the errors cannot be affected by the free variables; decisions that hang on an exact tie are left out. In other problems the relations between before and after are judged. Ill-posed problems are left out: there libdogleg gives no guarantee. Triangulated features and accuracy of the optimum on noisy data are not part of this.')
P('L06','The measurements are the weighted reprojection errors of the observations',
 'For every problem, each board and point measurement is the weight of the observation times (projection - observed pixel), with the corner or point transformed by the exact poses (and board warp) that the indices select; an observation with a weight <= 0 contributes 0 to x and to the Jacobian, and nothing depends on which variables are locked. ref_calibration_object(), hypothesis_board_corner_positions(), measurements_board() and measurements_point() report the same geometry and the same inliers of a camera, and make_perfect_observations() writes observations with zero residuals without touching anything else.',
 ['inputs','configurations'],'all rigs, poses, boards, weights, lens models and lock flags',
 'The tests evaluate a handful of problems against stored numbers; weights other than 1, negative and zero weights, cameras at the reference, several intrinsics per extrinsics and warped boards of any size occur in few combinations.',
 ['mrcal.c','mrcal/utils.py','mrcal/synthetic_data.py'],[('residuals','mrcal.c: optimizer_callback(), project()'),('board','mrcal/synthetic_data.py: ref_calibration_object(), make_perfect_observations()'),('parts of the measurements','mrcal/utils.py: hypothesis_board_corner_positions(), measurements_board(), measurements_point()')],
 'Camera-frame positions are exact rationals in the specification; the lens function of models other than the pinhole is taken from project(), which G02 decides. Triangulated and regularization measurements are not part of this.')
P('G01','Poses, their compositions, inverses and point transforms follow the group laws',
 'All pose functions (compose_r, compose_rt, compose_Rt with inverted0/inverted1 and any number of arguments, invert_*, rotate_point_*, transform_point_* with inverted, and the conversions between R, r, Rt, rt and qt) compute the rigid transformation they name, so chains of operations agree in every representation with the exact composition. This holds for any rotation (also none, 180 degrees, more than 180 degrees), with in-place and non-contiguous outputs, broadcasting and with gradients requested, and the reported gradients are the derivatives. The inputs are not modified unless they are the given output.',
 ['inputs','histories'],'all poses, points, sequences of operations, output placements and broadcast shapes',
 'The tests compare single calls at a few random poses; special angles, inverted flags in combination with aliasing, gradients and representation are a product they do not cover.',
 ['poseutils.c','poseutils-uses-autodiff.cc','poseutils-genpywrap.py','mrcal/poseutils.py'],[('pose arithmetic','poseutils.c, poseutils-uses-autodiff.cc'),('python API','mrcal/poseutils.py')],
 'Poses are exact rationals in the specification (integer quaternions), TLC checks the group laws and every step of the code is compared to the exact value to 1e-9. Gradients are compared to differences (2e-7). Bounded by the generators and the number of operations.')
P('G02','project() and unproject() implement the lens models and invert each other',
 'project() maps a camera-frame point to the pixel given by the definition of its lens model (pinhole, stereographic, lonlat, latlon, OpenCV 4/5/8/12, CAHVOR, CAHVORE, splined stereographic of order 2 and 3), independently of the range of the point; unproject() returns a direction that projects back to the given pixel, of unit length if normalize is given. The gradients either reports are the derivatives, project_...() and unproject_...() agree with the generic functions, and broadcasting and given output arrays do not change the results.',
 ['inputs','configurations'],'all lens models, intrinsics, points/pixels, and ways to call',
 'The tests check reference values for one set of points and one set of parameters per model; parameters that are zero there, other spline orders and sizes, points outside of the usual view, output arrays and broadcasting are not.',
 ['mrcal.c','mrcal.h','opencv.c','cahvore.cc','mrcal/projections.py','mrcal-genpywrap.py'],[('projections','mrcal.c: _project_point_parametric(), _project_point_splined(), project_cahvor(); opencv.c; cahvore.cc'),('python API','mrcal/projections.py')],
 'The specification is exact (rational arithmetic) on directions where the models are rational; on them pixels are compared to 1e-10. CAHVORE is exact only without distortion, otherwise only its gradients and inverse are checked. unproject() may return nan where the lens function is not invertible.')
P('G08','Triangulation returns the point the rays determine',
 'For rays that meet, every triangulate_...() method returns the point where they do, and (0,0,0) if they are parallel or this point is behind either camera; for rays that do not, it returns the point of its published definition (geometric, l1, linf, mid2, wmid2 and their convergence tests). The forms of the arguments (t01, Rt01, v_are_local), broadcasting, out= and the gradients agree, and wrong combinations fail. triangulate() does this for the pixels of pairs of models, returns the outputs its noise arguments select, and propagates the noise of the observations with the given correlation; mrcal-triangulate reports the same point.',
 ['inputs','configurations'],'all pairs of rays, poses, forms of arguments, shapes, models and pixels',
 'The tests triangulate points in front of a camera pair in one geometry; rays behind, parallel, along the baseline, and stacks of transformations are not looked at.',
 ['triangulation.cc','mrcal/triangulation.py','triangulation-genpywrap.py','mrcal-triangulate'],[('methods','triangulation.cc: mrcal_triangulate_...()'),('arguments','mrcal/triangulation.py: _parse_args(), triangulate_...()'),('pixels','mrcal/triangulation.py: triangulate()')],
 'Integer rays. lindstrom is checked for rays that meet, and by its gradients; rays must be in front of its cameras. l1, linf are not checked if the plane of the rays is perpendicular to the z axis. Calibration-time noise is not part of this.')
P('G05','Image regions are the sets of pixels their contours enclose',
 'is_within_valid_intrinsics_region() and mrcal-is-within-valid-intrinsics-region report exactly the pixels the contour encloses (none if it is empty, None if the model has none), for any shape and layout of the pixels. polygon_difference() returns closed polygons without holes so that each point of the first polygon outside of the second one is in exactly one of them, and no other point is in any. close_contour() closes contours that are not closed, and none of them modifies its arguments.',
 ['inputs'],'all simple polygons and pixels',
 'The tests do not look at regions with holes, empty regions, or layouts of pixel arrays.',
 ['mrcal/utils.py','mrcal/model_analysis.py','mrcal-is-within-valid-intrinsics-region'],[('polygons','mrcal/utils.py: polygon_difference(), close_contour()'),('mask','mrcal/model_analysis.py: is_within_valid_intrinsics_region()')],
 'Polygons of integer corners on a small grid, up to twelve corners; points on the boundary are not decided.')
P('G03','Rectified pairs have the documented geometry and give exact ranges',
 'rectified_system() returns two cameras at the positions of the given ones, with a common orientation whose x axis is the baseline and whose z axis is as close as possible to the mean viewing direction, showing the given field of view around the given (or detected, moved away from the baseline if needed) center at the resolution asked for; inconsistent requests are rejected. The rectification maps hold, for each rectified pixel, the pixel of the original camera that sees the same direction. stereo_range() and stereo_unproject() return the point that has the given disparity at the given pixel, for every type of disparity and for images as for single pixels, and 0 outside of the limits, and mismatched pairs are rejected.',
 ['inputs','configurations'],'all camera pairs, models, fields of view, resolutions, limits, and disparities',
 'The tests rectify three geometries looking perpendicular to the baseline; cameras in front of each other, limits, other types of disparity and mismatched pairs are not looked at.',
 ['stereo.c','mrcal/stereo.py'],[('system','stereo.c: mrcal_rectified_system2(), mrcal_rectified_resolution()'),('maps','stereo.c: mrcal_rectification_maps()'),('ranges','stereo.c: mrcal_stereo_range_sparse(), mrcal_stereo_range_dense(); mrcal/stereo.py: stereo_range(), stereo_unproject()'),('validation','mrcal/stereo.py: _validate_models_rectified()')],
 'The viewing directions of the cameras are mirror images of each other; poses are of integer quaternions. Pinhole views a few pixels wide are not decided.')
P('M01','Lens-model names, configurations and parameter counts are consistent everywhere',
 'A lens-model name is accepted if and only if it names a model known to mrcal with exactly its configuration parameters, each valid; the name read back is the name given, and equal names are the same model in python and in C. The number of parameters, the metadata (gradients, core, scaling, noncentral), the configuration and the spline knots that are reported are those that the name says.',
 ['inputs'],'all strings derived from model names by edits of names, keys, values, separators and order; all spline configurations',
 'The tests look at a fixed list of good and bad names; most malformed names, odd configurations and order 2/3 sizes are not in it.',
 ['mrcal.c','mrcal-pywrap.c','mrcal.h'],[('parsing and printing','mrcal.c: mrcal_lensmodel_from_name(), mrcal_lensmodel_name()'),('parameter counts and knots','mrcal.c: mrcal_lensmodel_num_params(), mrcal_knots_for_splined_models()'),('python','mrcal-pywrap.c')],
 'Names up to a bounded number of edits; numeric values from a list of representative strings.')
P('M02','A cameramodel object always holds exactly what was put into it',
 'After any sequence of constructions, setters (in any pose representation), copies, resets, and writes to and reads from files, every getter of a cameramodel returns what the last setter stored: the pose in all representations, the intrinsics, imager size, valid region, optimization inputs and camera indices. A rejected call leaves the model as it was, different models are independent, and neither arguments nor returned values alias the contents.',
 ['histories'],'all sequences of operations on two models, all getters observed after every operation',
 'The tests call each setter once or twice on a fresh model; what is left behind by an earlier operation, a failed setter, a copy or a reset only shows in sequences.',
 ['mrcal/cameramodel.py'],[('object','mrcal/cameramodel.py: class cameramodel'),('serialization','mrcal/cameramodel.py: _serialize_optimization_inputs(), _write()')],
 'Bounded depth and value lists; the sequences exported are a hash-selected sample of all of those of the bounded model.',observe='cameramodel getters')
P('M03','A .cameramodel file means the same to every reader, or is rejected',
 'The python reader and the C readers (file, string, preallocated buffer) accept exactly the files whose contents are complete and consistent, whatever the order of the keys, whitespace, comments and bracket style, including the old names of keys and models, and all return the values in the file. Malformed files produce an error, never a partial result, an overrun of the buffer or a crash. A file written by the C library is read back by both as the same model.',
 ['inputs'],'all key-value lists a few edits away from a valid file, in many text layouts including files that end at a page boundary',
 'The tests parse a dozen files; combinations of duplicates, missing and legacy keys, order, layout and sizes are not in there, and the agreement of the two parsers is not tested.',
 ['cameramodel-parser.re','mrcal.h','mrcal/cameramodel.py'],[('C reader and writer','cameramodel-parser.re'),('python reader','mrcal/cameramodel.py: _read_into_self()')],
 'Bounded number of edits; the C readers are driven by a small program linked to the freshly built library. Where the C reader is stricter by design (lens model first, no duplicates, no old lens-model key) the specification says so.')
P('V01','Only well-formed optimization problems are accepted; malformed ones fail safely',
 'optimizer_callback() and optimize() accept a problem if and only if it is well-formed: arrays of the right type, shape, layout and byte order, consistent sizes, camera, frame and point indices in range and in the documented order and coverage, a valid board where there are board observations, and allowed selections of variables. Everything else raises an exception: nothing is ever read out of bounds, nothing crashes, and the arrays given are not modified. The functions that describe a problem (sizes, indices, packing, corresponding_icam_extrinsics) hold to the same, and give the documented answer for all well-formed problems.',
 ['inputs'],'all argument sets; here those a few edits away from a well-formed problem, in every argument and index',
 'The tests try a dozen malformed calls; the product of arguments, kinds of malformation and entry points is not sampled, and an index that is not checked only shows with the value that is just out of range.',
 ['mrcal-pywrap.c','mrcal.c','python-wrapping-utilities.h'],[('validation','mrcal-pywrap.c: optimize_validate_args(), fill_c_observations_point_triangulated(), CHECK_LAYOUT'),('queries','mrcal-pywrap.c: state_index_generic(), _pack_unpack_state()'),('camera poses','mrcal.c: mrcal_corresponding_icam_extrinsics()')],
 'Up to two edits from six base problems (all single edits; a sample of the pairs). Not decided: arrays of zero-size boards, frames without any board observation. Reads out of bounds that neither crash nor are accepted do not show.')
P('C01','Corner files are read into exactly the board observations they describe',
 'compute_chessboard_corners() returns one observation for each image whose detections it keeps (a full grid, more than the minimum number of detected corners, not excluded, matching the glob of a camera), with the corners in file order, weights from the level or weight column, and -1 for what was not detected; ordered by frame and camera, with consecutive frame indices, and with the documented image paths. Malformed files, incomplete grids and cameras with too few images raise an exception. If there is no corners file, the detector is run once and its output stored, only if it succeeded.',
 ['inputs','configurations','crash'],'all corner files, globs, kinds of weights, places of the file and of the images, and outcomes of the detector',
 'The tests read three small files from a string, with one pair of globs; files on disk, image paths, excluded images, malformed rows and running the detector are not tested.',
 ['mrcal/calibration.py'],[('ingestion','mrcal/calibration.py: compute_chessboard_corners()')],
 'Corner files by up to 2-3 edits from five base files. The detector is a stand-in script. Not decided: fractional levels, blank lines, images appearing twice, two images of one camera with the same frame number.')
P('C02','Image names map to the frame numbers and cameras that they encode',
 'mapping_file_framenocameraindex() maps each image to the index of its camera and to the number that its name has where the names of the images of that camera differ, with all of its digits, whatever the lengths of the numbers and whatever other digits the names contain. A single image is frame 0; one camera with names that have no such number gets sequential frames; several cameras with such names, or a camera without images, raise an exception.',
 ['inputs'],'all lists of image names per camera',
 'No test calls this function; it is used with well-behaved names only.',
 ['mrcal/utils.py'],[('parsing of names','mrcal/utils.py: mapping_file_framenocameraindex()')],
 'Names composed of parts (prefix, digits, suffix), by up to 2-3 edits of four base lists; no name occurs twice.')
P('C03','The corner-file tools change exactly the points they are asked to',
 'mrcal-cull-corners marks as undetected exactly the corners on the far side of the given line, circle in the image, or circle on the board (counting missing corners), in the images that match the given patterns, and leaves everything else as it was; with a ratio it keeps that fraction of the usable images unchanged. mrcal-rotate-corners reorders the grid of exactly the matching images by the given rotation, so that four turns by 90 degrees are none. Input they cannot handle is an error.',
 ['inputs','configurations'],'all corner files and options',
 'These tools have no tests.',
 ['mrcal-cull-corners','mrcal-rotate-corners'],[('culling','mrcal-cull-corners'),('rotation','mrcal-rotate-corners')],
 'Files and options by up to 2-3 edits of ten base invocations. Points exactly on a limit, and images that match two rotations, are not decided.')
P('T01','Sensor links are traversed along the optimal paths, each sensor once',
 'traverse_sensor_links() reports each sensor connected to sensor 0 exactly once, and no other, in order of the cost of its path, as reached from a sensor reported before that lies on a cheapest path (fewest links, then most shared observations). It stops with an error if the callback raises or returns False, returns a true value otherwise, never modifies its input, and rejects anything that is not a square uint16 matrix of at least one sensor.',
 ['inputs','histories'],'all graphs and callbacks',
 'The tests have one graph of 5 sensors.',
 ['traverse-sensor-links.c','heap.cc','mrcal-pywrap.c','mrcal/calibration.py'],[('traversal','traverse-sensor-links.c: mrcal_traverse_sensor_links(); heap.cc'),('python','mrcal-pywrap.c: traverse_sensor_links(); mrcal/calibration.py: _traverse_sensor_links_python()')],
 'Graphs of up to 12 sensors. The choice between equally good paths is free.')
P('L07','Regularization has the documented terms, of the optimized parameters only',
 'For all parameters being optimized, and for no other: if regularization is on (the default of optimizer_callback() and optimize()), x ends with one term per optimized distortion coefficient of a parametric model (its value over 10, and 5 times that for the coefficients in the denominator of OPENCV8 and OPENCV12), a pair per knot of a splined model (the deviation of this knot along the direction from the center at 0.01 and across it at 0.1), then two per optimized center pixel (its distance from the middle of its own imager over the width of the first imager), camera by camera. If the unity_cam01 regularization is on (off by default) and extrinsics are optimized, a last term is 10 (|t|^2-1) of the first of them.',
 ['inputs','configurations'],'all problems: lens models, lock flags, numbers of cameras, regularization selections, parameter values',
 'The tests count these measurements and compare the gradients of a few of them, not which values they pull to, with several imager sizes, or locked parameters.',
 ['mrcal.c','mrcal-pywrap.c'],[('regularization','mrcal.c: optimizer_callback(), mrcal_num_measurements_regularization()')],
 'Up to 3 cameras. Values are compared to relative 1e-6. The scale factors are those of the current code and its documentation: an intentional change of these is reported.')
P('T02','Calibration seeds recover the rig from consistent observations',
 'Given exact observations of a chessboard, seed_stereographic() returns the exact poses of all cameras and boards with camera 0 as the reference, and estimate_monocular_calobject_poses_Rt_tocam() that of the board in each view for any lens model, for any order of the cameras in a frame, any form of the focal lengths, and with missing corners ignored. It fails if cameras are not tied together by pairs sharing at least two frames, if frames are out of order or if fewer than 6 corners are left. estimate_joint_frame_poses() returns, per frame, the pose that the views of it have on average, and no input is modified.',
 ['inputs','configurations'],'all rigs, sets of views and forms of arguments',
 'The tests seed two calibrations and look at the final result of the optimization.',
 ['mrcal/calibration.py'],[('seeding','mrcal/calibration.py: seed_stereographic(), estimate_joint_frame_poses(), estimate_monocular_calobject_poses_Rt_tocam(), _estimate_camera_poses()')],
 'Up to 4 cameras and 5 frames. solvePnP() of OpenCV is taken to be exact to 1e-5 on exact data (it is, in the views used). The quality of seeds from noisy data is not part of this.')
P('M04','Other file formats and grafting preserve the camera, or are refused',
 'A camera written as a .cahvor, opencv/ROS or kalibr file (by cameramodel.write() or the mrcal-to-/from- tools) reads back as the same camera up to what the format can hold (pose, region and lens distortions that exist there; OPENCV4/5 as one; no distortions is a pinhole), and the files contain what the definition of the format says. A camera the format cannot describe, or a file that is malformed or incomplete, is an error and never a different camera. mrcal-graft-models combines exactly the intrinsics of one and the pose of the other; the tools process every input given, and write nothing over existing files unless told.',
 ['inputs','configurations'],'all cameras and files; here cameras with exact (rational) poses, and files up to two edits from a valid one',
 'The tests convert a couple of cameras to CAHVOR and kalibr and back; reversed columns, omitted keys, several inputs, and lens models that cannot be described are not there.',
 ['mrcal/cahvor.py','mrcal/cameramodel.py','mrcal-to-cahvor','mrcal-from-cahvor','mrcal-from-ros','mrcal-to-kalibr','mrcal-from-kalibr','mrcal-graft-models'],[('CAHVOR','mrcal/cahvor.py: _read(), _write()'),('opencv, ROS','mrcal/cameramodel.py: _read_into_self(), _write()'),('tools','mrcal-to-cahvor, mrcal-from-cahvor, mrcal-from-ros, mrcal-to-kalibr, mrcal-from-kalibr, mrcal-graft-models')],
 'Values with few digits. The rectification matrix of ROS files is not read (accepted), and CAHVOR without distortions is a pinhole model.')
P('U01','Projection uncertainty is the documented propagation of the input noise',
 'projection_uncertainty() returns F Var(b) F^T, where Var(b) is that of the solution of the least-squares problem the model came from, and F the derivative of the pixel by the state through the intrinsics and the motion of the coordinate system that the observations of this camera (or all observations, or the mean frame, according to the method) report; for boards and points, fixed or moving cameras, any variables locked. It depends on no other variables, scales with the noise, is computed for each point separately, ignores the present pose of the model, and modifies nothing. If this cannot be done, an exception is raised or the result is not finite.',
 ['inputs','configurations'],'all solved problems, cameras, methods and points',
 'The tests compare with sampling in a few rigs, with wide tolerances and everything optimized; locked variables, points together with boards, fixed points and rejected observations are other code paths.',
 ['mrcal/model_analysis.py','uncertainty.c','mrcal-pywrap.c'],[('propagation','mrcal/model_analysis.py: projection_uncertainty(), _propagate_calibration_uncertainty(), _dq_db__projection_uncertainty()'),('motion of the coordinate system','uncertainty.c: _mrcal_drt_cross_reprojection__dbpacked()')],
 'Which observations and variables matter is in the specification, the numbers are computed densely by the driver. Only problems with a condition number below 1e5 are decided, with a tolerance of 1e-3. Not part of this: whether the linear propagation describes the true errors.')
P('U02','Triangulated points have the covariance the noise gives them',
 'triangulate() returns the points, and those of the covariances from calibration-time noise, observation-time noise and both that the arguments ask for, in the documented shapes: F Var(b) F^T over all points together (with all cross terms), where F is the derivative of the points by the optimized variables of the two cameras, and of the frames or reference they are seen from if stabilized; G Var(q) G^T for each point; and their sum. This holds for any stack of pairs and pixels, any variables locked, and all methods with gradients. Models that have been moved, come from different calibrations or from none are refused if calibration noise is asked for, as are negative noise levels; noise that is zero is a zero covariance, and nothing is modified.',
 ['inputs','configurations'],'all calibrations, pairs of cameras, stacks, noise levels and methods',
 'The tests compare with sampling in one rig of two cameras with wide tolerances; locked variables, several pairs at once, and refusals are not looked at.',
 ['mrcal/triangulation.py','mrcal/model_analysis.py'],[('propagation','mrcal/triangulation.py: triangulate(), _triangulation_uncertainty_internal()'),('calibration noise','mrcal/model_analysis.py: _propagate_calibration_uncertainty()')],
 'The dependencies, refusals and shapes are in the specification; the derivatives are differences taken by the driver, the triangulation itself being that decided in G08. Condition numbers up to 1e5, tolerance 3e-3 of the standard deviations.')
P('D01','Differences of projections are those of the cameras, transformed as asked',
 'projection_diff() returns, on the documented grid of pixels, how far the pixels of other cameras are that see what each pixel of the first sees: at the distances given or at infinity (where translations do not matter), with the transformation given, that of the models, none, or the fitted one; stereo_pair_diff() does so between two cameras of each of two pairs. A fitted transformation is the one that the cameras (and the points with weight, in the circle of focus) really have, and minimizes the weighted error if they have none. model_resolution__deg_pixel() is the exact resolution of the projection, comparisons that have no meaning are refused, and no model is modified.',
 ['inputs','configurations'],'all sets of cameras, lenses, poses, distances, grids, circles, weights',
 'The tests look at one pair of cameras and a few options of projection_diff(), with no stereo pairs, no focus, no arrays of distances.',
 ['mrcal/model_analysis.py'],[('projection_diff','mrcal/model_analysis.py: projection_diff(), implied_Rt10__from_unprojections()'),('stereo_pair_diff','mrcal/model_analysis.py: stereo_pair_diff()'),('resolution','mrcal/model_analysis.py: model_resolution__deg_pixel()')],
 'Differences are exact to 1e-5 pixels given the projection functions (decided in G01, G02). Fits start at random places and may end in a local minimum: cameras of fitted cases have an exact relation; with noise, the cost is compared, and retried.')
P('I01','Images survive files, and color maps give the documented colors',
 'save_image() writes all 8-bit, 16-bit and BGR arrays, however their rows lie in memory, as files of the format of the extension that anybody can read, with exactly those pixels (jpg: nearly); what cannot be stored is refused and leaves an existing file alone. load_image() returns the pixels of files in the requested format, with the documented conversions only, and refuses everything else. apply_color_map() gives each number, of any type and range, the colors of gnuplot formulas, clipped to the bounds given or found.',
 ['inputs','faults'],'all arrays, memory layouts, file formats, requested formats, damaged files, types of numbers, formulae',
 'The tests never write or read an image, and apply one color map to one array.',
 ['image.c','image.h','stereo.c','mrcal-pywrap.c','mrcal-genpywrap.py'],[('image files','image.c: generic_save(), generic_load()'),('python','mrcal-pywrap.c: load_image(), save_image()'),('color map','stereo.c: mrcal_apply_color_map_TYPE(), gnuplot_color_formula()')],
 'Images up to 9 x 6 pixels. The driver has its own PNG and PNM readers and writers; jpg files are decoded with OpenCV. Numbers at 24ths of the range of the color map. Other formats that stb happens to read (bmp, gif) are not looked at.')
P('I02','Images are reprojected to where each pixel sees the same thing',
 'image_transformation_map() gives for each pixel of the output camera the pixel of the input camera that sees the same direction, point at the given distance, or point of the given plane, and -1 where the input is not valid if asked to mask; contradictory questions are refused. pinhole_model_for_reprojection() and scale_focal__best_pinhole_fit() give the largest view in which all requested points are just inside, with the pose, center, size and aspect ratio that follow. transform_image() samples exactly those pixels, and mrcal-reproject-points treats lists of points the same way.',
 ['inputs'],'all pairs of cameras, poses, planes, distances, ways to fit, scales, images and maps',
 'The tests reproject one pair of cameras with one plane, and fit no pinhole model.',
 ['mrcal/image_transforms.py','mrcal-reproject-points'],[('maps','mrcal/image_transforms.py: image_transformation_map()'),('pinhole models','mrcal/image_transforms.py: pinhole_model_for_reprojection(), scale_focal__best_pinhole_fit()'),('images','mrcal/image_transforms.py: transform_image()'),('lists of points','mrcal-reproject-points')],
 'Exact for pairs of pinhole cameras with rational poses, 5 to 9 pixels wide; other lenses against project() and unproject() (see G02). Rotations below 1e-6 rad may be treated as none. matplotlib is missing here: the driver has a stand-in for the polygon test.')
P('G09','Alignments are the best rotations, and weights count as copies',
 'align_procrustes_points_Rt01() and align_procrustes_vectors_R01() return a proper rotation (and translation) that no other beats in the weighted error, the true one if there is one; a point of weight k counts as k points, of weight 0 as none; data that does not fix the rotation is reported as such by the documented zeros, at any scale. Stacks, memory layouts and out= make no difference. R_aligned_to_vector(), sorted_eig(), worst_direction_stdev(), quat_from_R() and R_from_quat() are what they say, for all signs, axes and repeated eigenvalues.',
 ['inputs'],'all point sets, weights, scales, motions, degenerate sets, stacks and memory layouts',
 'The tests align one random cloud with and without noise; no weights, no mirror-like or degenerate data, no scales, and few special axes.',
 ['poseutils.c','poseutils-genpywrap.py','mrcal/utils.py','mrcal/model_analysis.py','mrcal/_poseutils_scipy.py'],[('alignment','poseutils.c: mrcal_align_procrustes_points_Rt01(), mrcal_align_procrustes_vectors_R01()'),('python','poseutils-genpywrap.py'),('small problems','mrcal/utils.py: sorted_eig(), R_aligned_to_vector()'),('worst direction','mrcal/model_analysis.py: worst_direction_stdev()')],
 'Points are small integers, moved by rational poses, and scaled. Rank is exact in the specification; the optimum is decided by the symmetry and definiteness of the product with the moments, in integers to 1e-3. Sets near to singular are not decided.')
P('Q01','A factorization solves the systems of the matrix it was last given',
 'A CHOLMOD_factorization holds nothing, or the matrix J last given to it without error, and solve_xt_JtJ_bt() then returns the exact solutions of each of the systems of the documented parts (A, LDLt, L, D, P...) for right-hand sides of any shape and layout; rcond() and str() agree with that state. A matrix that is singular, ill-formed or of a wrong type is refused with an exception, after which the object holds nothing; nothing makes the process crash or return garbage.',
 ['histories','inputs','faults'],'all sequences of init, re-init, clear, solve, rcond, str; all sparse matrices, right-hand sides, system parts, invalid arguments',
 'The tests factor one matrix and solve one system; the object is never used twice, without or after a failure, and no other part is solved.',
 ['mrcal-pywrap.c'],[('object','mrcal-pywrap.c: CHOLMOD_factorization_init(), _CHOLMOD_factorization_init_from_cholmod_sparse(), CHOLMOD_factorization_dealloc()'),('solve','mrcal-pywrap.c: CHOLMOD_factorization_solve_xt_JtJ_bt()'),('rcond','mrcal-pywrap.c: CHOLMOD_factorization_rcond()')],
 'Up to 6 variables with small integer values: singularity and solutions are exact. Matrices with dependent but nonzero columns may pass by rounding, and may be refused or not.')
P('K01','Made-up observations are exactly what the given solution would see',
 'make_perfect_observations() replaces the observations of boards, points and rejected outliers by those with residuals of 0 in optimizer_callback(), modifies no weight, marking or other argument, and adds exactly the noise asked for, scaled by the weights. synthesize_board_observations() returns poses in the ranges asked for, of boards that face the cameras as required, are seen by the cameras as the mode requires, and whose returned pixels are their projections by the models.',
 ['inputs','configurations'],'all problems (boards, points, fixed or moving cameras, outliers, warps), noise; all rigs, modes, ranges',
 'The tests use both to make data for other tests, in one rig and mode; a wrong result would be wrong in the same way on both sides.',
 ['mrcal/synthetic_data.py','mrcal/utils.py'],[('perfect observations','mrcal/synthetic_data.py: make_perfect_observations()'),('boards','mrcal/synthetic_data.py: synthesize_board_observations()'),('corners','mrcal/utils.py: hypothesis_board_corner_positions()')],
 'Noise is compared by replacing the generator with one that returns known numbers, so nothing is statistical. Projections are compared to a thousandth of a pixel with those of plain numpy or of project() (decided in G01, G02).')
P('F01','Features are matched at the pixel that corresponds to the one asked for',
 'match_feature() takes the patch of image 0 that the homography puts around the estimate in image 1, compares it with all positions within the search radius inside of image 1, by any of the comparison functions, and returns the pixel that corresponds to q0 at the best position, refined by the paraboloid through its neighbors; or None if the best is at the limit of the search. The diagnostics agree with this. Patches outside of either image and contradictory arguments are refused, and nothing is modified.',
 ['inputs'],'all images, pixels, homographies, template sizes, search radii, comparison functions',
 'The tests look for a few features in one pair of large images, with one comparison function and tolerances of a pixel; windows cut by the edges, even and oblong templates, mirrored or sheared views are not looked at.',
 ['mrcal/stereo.py'],[('matching','mrcal/stereo.py: match_feature()')],
 'Homographies are affine, with patches sampled at whole and half pixels, so that templates and scores are exact integers (roots to 1e-3). Cases where the best match is ambiguous, or the paraboloid is not clearly curved, are not decided. OpenCV computes the scores.')

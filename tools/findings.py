#!/usr/bin/env python3
"""Regenerates known-findings.json"""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED=[l.strip() for l in '''
property=L01 810f981 legacy extrinsics_rt_fromref, frames_rt_toref ignored by optimize() and optimizer_callback()
property=L02 2cd41fd indices_point_triangulated_camintrinsics_camextrinsics=None crashed
property=L03 a39a02d pack_state(), unpack_state() of an empty state vector died with SIGFPE
property=L04 25bedae the Jacobian had fewer than Nstate columns if nothing depended on the last states
property=L01 05403c2 num_states() etc. rejected the documented explicit dimensions
property=L01 c6e3044 num_states() etc. crashed if called without keyword arguments
property=L03 895922d ingest_packed_state() was wrong with partially-locked intrinsics of several cameras, models without distortions, and Npoints_fixed=0
property=G02 ac05254 unproject(get_gradients=True, out=tuple) failed
property=M01 30ce1f4 mrcal_lensmodel_name() rounded the CAHVORE linearity
property=M03 3368797 mrcal_write_cameramodel_file() lost small values
property=M02 2a6d540 copying a cameramodel destroyed its optimization_inputs
property=M02 dbba8cb optimization_inputs_reset() left camera indices, so files written later could not be read
property=M02 249e28b a failing cameramodel.intrinsics() setter left the model partly changed
property=M02 39efe89 cameramodel.rt_cam_ref() accepted a pose of the wrong size
property=M03 c9b02b2 the C parser accepted an imager with zero height
property=M03 ea6d8ad the C parser failed to skip numbers with positive exponents
property=V01 e4b93cd corresponding_icam_extrinsics() raised an unrelated error for a camera without observations
property=L06 735fbe5 hypothesis_board_corner_positions() modified the caller's idx_inliers
property=L06 63b4872 make_perfect_observations() with noise turned the outliers into inliers
property=V01 82da550 optimize() and optimizer_callback() crashed if given intrinsics=None
property=V01 cfcfc4c corresponding_icam_extrinsics() read out of bounds with out-of-range camera indices, or missing index arrays
property=V01 e86e238 two observations of a triangulated feature from the reference crashed
property=V01 cf7487c arrays in a non-native byte order were read as garbage
property=V01 b312e3e an out-of-range Npoints_fixed overran the arrays
property=C02 71db383 frame numbers of different lengths (frame1, frame10) were rejected or replaced
property=C01 c50f259 paths were '/image' if corners.vnl was in the current directory
property=C03 c50c8ec --cull-rad-off-center-board lost its place on the board after each missing corner
property=C03 9a5e50a --cull-random-observations-ratio threw out all full-resolution corners
property=T01 82aae98 traverse_sensor_links() ignored a callback returning False, and wrote out of bounds with a (0,0) matrix
property=T02 008653a observations of a frame with the cameras not in ascending order were not used for seeding
property=T02 d811769 seed_stereographic() failed with focal_estimate=array([f]) and more than one camera
property=G08 623fb7d triangulate_lindstrom(v_are_local=False) failed with a stack of Rt01
property=G08 f8265c1 triangulate_leecivera_l1() and _linf() returned NaN for points on the baseline
property=G05 31f907c polygon_difference() failed with holes with shapely 2
property=G03 bd921ea stereo_range() of dense disparities outside of uint16 wrapped; mismatched rectified pairs were accepted or raised NameError
property=M04 d60e976 .cahvor files with integer-only vectors or an empty valid-intrinsics region were unreadable; CAHVORE without R was read as a pinhole model
property=M04 e87d744 ROS/OpenCV models with a malformed or duplicate R were read with an identity rotation; missing keys raised KeyError
property=M04 248a1d7 mrcal-to-cahvor, -from-cahvor, -from-ros skipped all inputs after one whose output exists, and reported success
property=M04 4491b91 mrcal-from-kalibr reported success on a malformed T; mrcal-to-kalibr mangled distortion_coeffs
property=U01 06b86d2 uncertainty of problems with points, locked extrinsics or rejected observations was refused or used gradients of the wrong measurement
property=U01 f0a60c7 projection_uncertainty() failed with locked intrinsics or extrinsics, or without frames
property=U02 fb53aa5 triangulate() failed with do_optimize_intrinsics_distortions=False and a model without distortions
property=D01 5836f51 implied_Rt10__from_unprojections() failed with two or more leading dimensions and weights
property=D01 d6eabd3 projection_diff() at infinity applied the translation given or between the cameras
property=D01 bd06e5a stereo_pair_diff() failed with CAHVORE models, and modified those of the caller
property=D01 3c2908a model_resolution__deg_pixel() failed with a single pixel
property=I01 3f40544 the C image accessors were wrong with negative or unaligned strides
property=I01 8b031e2 16-bit images were stretched wrongly if decreasing, and divided by 0 if constant
property=I01 806a868 .png and .jpg images with negative strides could not be written, or crashed
property=I01 b4f2f3a color maps of negative floating-point numbers used a wrong maximum, wide ranges overflowed
property=I02 12001e8 scale_focal__best_pinhole_fit() was -inf with a point on an axis
property=I02 a5ea41c pinhole_model_for_reprojection() with an invalid shape of fit raised an unrelated TypeError
property=I02 0b2783f pinhole_model_for_reprojection(scale_image=) was NaN with a center at 0
property=I02 2edf25f image_transformation_map() with plane_d<0 looked in the opposite direction
property=G09 5acdb55 align_procrustes_points_Rt01() computed the centroids without the weights: a point of weight 0 changed the result
property=G09 8b2869f singular alignments were detected with an absolute threshold: large collinear sets got an arbitrary rotation, tiny good sets were reported as singular
property=G09 f069bb1 alignments with non-contiguous weights raised an exception
property=Q01 d877c7f solve_xt_JtJ_bt() of a right-hand side with a trailing dimension of 0 died with SIGFPE
property=Q01 6b5317f byte-swapped arrays were interpreted in native order, without an error
property=K01 b651fe2 make_perfect_observations() and hypothesis_board_corner_positions() failed with rt_cam_ref=None or absent
'''.strip().split('\n')]
FINDINGS=[
 dict(property='I01',key='pgm16-byte-order',what='16-bit .pgm files are written and read with the least significant byte of each sample first, against the format: they survive save_image() and load_image(), but other programs see other pixels (reading depends on the version of stb, so both cannot simply be swapped)'),
 dict(property='I01',key='color-map-below-2d',clause='shape_of_colors',what='apply_color_map() of an array with 0 or 1 dimensions returns a shape (1,N,3), not (N,3) as documented'),
]
json.dump(dict(findings=FINDINGS,fixed=['fixed: '+f for f in FIXED]),open(V+'/known-findings.json','w'),indent=1)

#!/usr/bin/env python3
'''Writes /verif/properties.jsonl. The properties are kept here because JSON lines are hard to edit.'''
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mechanism,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=' '.join(statement.split()),
        quantifier=dict(over=over,text=' '.join(text.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files,
          **({'state':[dict(name=n,meaning=m,where=w) for n,m,w in state]} if state else {}),
          mechanism=[dict(name=n,where=w) for n,w in mechanism],
          observe_at=observe,hook_needed=hook)))

prop('P01','Projection derivatives are the true derivatives of the projection',
'''For every lens model, intrinsics vector and point the model can project, the reported derivatives of the pixel coordinate with
respect to the point and to every intrinsics parameter equal the actual derivatives of the reported pixel coordinate. Asking for derivatives,
or projecting many points in one call instead of one at a time, never changes a projected value or a derivative, in Python and in C.''',
['inputs','configurations'],'all lens models (and every configuration of the configurable ones), all intrinsics in the model\'s domain, all points incl. wide-angle, near-axis and off-the-spline-grid, all batch sizes and output combinations',
'test-gradients.py and test-projections.py evaluate a handful of fixed points and a few fixed intrinsics vectors; a derivative that is wrong in one branch (near-axis, outside the spline grid, one distortion coefficient, second point of a batch) is not sampled.',
['mrcal.c','cahvore.cc','opencv.c','_autodiff.hh','mrcal-genpywrap.py','mrcal/projections.py'],
[('project(): chain rule from lens-model gradients to state',"mrcal.c:project()"),('project_cahvor/project_cahvore/project_splined/_mrcal_project_internal_opencv','mrcal.c, cahvore.cc, opencv.c'),('mrcal_project() fast paths','mrcal.c:mrcal_project()')],
['mrcal.project(...,get_gradients=True)','mrcal_project() in C','mrcal.project_pinhole/stereographic/lonlat/latlon'])

prop('P02','Unprojection inverts projection, with true derivatives and NaN on failure',
'''For every lens model, unprojecting a pixel gives a finite, nonzero observation vector that projects back to that pixel, and unprojecting the projection of a vector gives back that
direction wherever the model is invertible; normalization requested by the caller yields unit vectors in the same direction. Unprojection derivatives are the true derivatives of the reported vector. Pixels
that cannot be unprojected are reported as NaN in every component, never as a plausible wrong vector.''',
['inputs','configurations'],'all lens models, intrinsics, pixels (inside and far outside the imager), batch sizes, with/without normalization, with/without gradients, with/without preallocated output',
'the tests round-trip a few pixels near the centre of a few models with one configuration each.',
['mrcal.c','mrcal/projections.py','cahvore.cc','mrcal-genpywrap.py'],
[('closed-form unproject for simple models; dogleg inversion for the rest','mrcal.c:_mrcal_unproject_internal()'),('unproject(): analytic gradients from project()','mrcal/projections.py:unproject()')],
['mrcal.unproject()','mrcal_unproject() in C'])

prop('P03','Each lens model computes the projection it is documented to compute',
'''The pixel coordinate reported for a point is the one given by the documented formula of its lens model: pinhole, stereographic, equirectangular longitude/latitude variants, the 4/5/8/12-parameter
OpenCV models (identical to OpenCV itself), CAHVOR, CAHVORE with its configured linearity, and the splined stereographic model with its B-spline surface of configured order, grid and field of view.''',
['inputs','configurations'],'all lens models and configurations; all intrinsics; all points in front of, beside and (where documented) behind the camera',
'the tests compare with stored numbers for a few points; they cannot establish agreement with an independent definition for all points and all parameters.',
['mrcal.c','cahvore.cc','opencv.c','doc/lensmodels.org'],
[('lens-model formulas','mrcal.c:mrcal_project_*(), project_cahvor(), spline_sample(); cahvore.cc; opencv.c')],
['mrcal.project()','cv2.projectPoints()','mrcal.knots_for_splined_models()'])

prop('P04','Pose representations agree and obey the laws of rigid motion',
'''All representations of a pose (rotation matrix, Rodrigues vector, quaternion; with or without translation) describe the same motion after any conversion; composition, inversion and point
transformation agree with ordinary 4x4 matrix algebra for every pose, including the identity, near-identity and rotations near pi. Every derivative they report is the true derivative. The result does not depend on the inverted-flags
spelling, on the number of poses composed at once, or on writing the output over an input.''',
['inputs','configurations'],'all poses incl. th=0, tiny th, th=pi, th>pi; all optional flags; chains of compositions; in-place and strided calls of the C API',
'tests use a few fixed random poses plus a few small-angle cases and do not cross representation, in-place use, inversion flags and special angles.',
['poseutils.c','poseutils-uses-autodiff.cc','poseutils-genpywrap.py','mrcal/poseutils.py','poseutils.h'],
[('analytic formulas with special small-angle branches','poseutils.c; poseutils-uses-autodiff.cc'),('python dispatch over chains and flags','mrcal/poseutils.py')],
['mrcal.compose_*, invert_*, *_from_*, rotate_point_*, transform_point_*','mrcal_*_full() in C'])

prop('P05','Optimizer residuals and Jacobian describe the same documented cost function',
'''The measurement vector evaluated by the optimizer equals an independent evaluation of the documented cost (weighted reprojection errors of boards and points, range penalty, triangulated-point errors,
regularization) for any problem; outliers contribute zero. The sparse Jacobian reported with it equals the true derivative of that vector with respect to every packed state variable, for every choice of which quantities are optimized,
and does not depend on whether the Jacobian was requested.''',
['inputs','configurations'],'all combinations of lens model, optimized-variable selections, locked core/distortions, cameras at reference, fixed points/frames, board warp, outliers, weights, discrete points, triangulated points, regularization flags',
'tests check one fixed problem with a handful of selections against stored values and numerical gradients of 3 models.',
['mrcal.c','triangulation.cc','mrcal-pywrap.c','scales.h'],
[('cost function and Jacobian assembly','mrcal.c:optimizer_callback(), project()'),('triangulated error','triangulation.cc:_mrcal_triangulated_error()')],
['mrcal.optimizer_callback() returned x,J'])

prop('P06','State and measurement layouts partition the vectors; packing is invertible',
'''For every optimization problem the blocks of state variables and of measurements that the layout queries report tile the state and measurement vectors exactly, without gaps or overlaps, and each block
really is what the optimizer uses for that object. Packing and unpacking a state vector are exact inverses, scale each variable linearly in place on any array shape, and the packed state obtained from a problem describes that problem.''',
['configurations','inputs'],'all combinations of counts, lens models and problem selections, incl. zero counts and out-of-range indices (reported as absent, never as a wrong index)',
'tests check layouts of a couple of configurations.',
['mrcal.c','mrcal-pywrap.c','scales.h','mrcal/utils.py'],
[('index arithmetic','mrcal.c:mrcal_state_index_*(), mrcal_num_*(), mrcal_measurement_index_*()'),('pack/unpack','mrcal.c:mrcal_pack_solver_state_vector(), unpack_solver_state()'),('ingest_packed_state','mrcal/utils.py:ingest_packed_state()')],
['mrcal.num_states*/state_index_*/num_measurements*/measurement_index_*','mrcal.pack_state/unpack_state','mrcal.ingest_packed_state'])

prop('P07','Optimization never worsens the cost and touches only what it may',
'''Solving a calibration problem never returns a solution whose cost on the measurements it kept is higher than the seed's, writes the solution into the caller\'s arrays, and reports a packed state, residuals and RMS error that are
those of the returned arrays. Quantities that were not selected for optimization, fixed points and frames, and the observed pixels are returned bit-identical; only observation weights may be negated, to mark newly-found outliers, and none are marked when outlier rejection is off. Given noise-free data
and a seed near the truth the solution is a fixed point that reproduces the data.''',
['inputs','configurations','histories'],'all problem types and selections, seeds, noise, gross outliers, repeated solves',
'tests run a few long calibrations and check the final answer of those only.',
['mrcal.c','mrcal-pywrap.c'],
[('solve loop, outlier loop','mrcal.c:mrcal_optimize(), markOutliers()'),('locked variables not in state','mrcal.c:pack_solver_state(), unpack_solver_state()')],
['mrcal.optimize()','arrays passed to it'])

prop('P08','A camera model survives being written and read, in every reader',
'''Writing a camera model to a file, stream or string and reading it back yields the same lens model, imager size, intrinsics, pose, valid-intrinsics region and optimization inputs, to the documented text precision, and repeating this changes nothing further. The C reader and the Python reader
accept the same files and produce the same model. Anything accepted on construction can be written and re-read.''',
['inputs','histories'],'all lens models and configurations, poses, imager sizes, regions, notes with any text, optimization inputs; sequences of setter calls before writing; all legal formattings (comments, whitespace, key order, number syntax, unknown keys)',
'tests check a few models and a list of fixed strings.',
['mrcal/cameramodel.py','cameramodel-parser.re','mrcal-pywrap.c','mrcal.c','python-cameramodel-converter.c'],
[('python writer/reader','mrcal/cameramodel.py:_write(),_read_into_self(),_serialize_optimization_inputs()'),('C parser','cameramodel-parser.re'),('C writer','mrcal.c:mrcal_write_cameramodel_file()')],
['mrcal.cameramodel()','mrcal_read_cameramodel_string/file()','mrcal_write_cameramodel_file()'])

prop('P09','Malformed models and lens names are refused cleanly, never misread',
'''Any byte string given as a camera-model file or lens-model name is either accepted with exactly the content it spells out or refused with an ordinary error; truncated, corrupted or incomplete input is never accepted as something else, never crashes and never touches memory out of bounds.
Every lens-model name accepted describes a configuration that can be turned back into an equivalent name, with parameter count and metadata agreeing with how projection behaves.''',
['inputs','fault_sequences'],'all byte strings: mutations, truncations at every byte, deletions of every key, duplicated keys, over/underflowing numbers; all lens-model configurations',
'tests hold about forty fixed strings.',
['cameramodel-parser.re','mrcal.c','mrcal/cameramodel.py','mrcal-pywrap.c'],
[('parser','cameramodel-parser.re:mrcal_read_cameramodel_string()'),('lens-model name parser/printer','mrcal.c:mrcal_lensmodel_from_name(), mrcal_lensmodel_name(), LENSMODEL_*__scan_model_config()'),('metadata','mrcal.c:mrcal_lensmodel_metadata(), mrcal_lensmodel_num_params()')],
['mrcal_read_cameramodel_string()','mrcal.cameramodel(StringIO)','mrcal_lensmodel_from_name()','mrcal.lensmodel_metadata_and_config()'])

prop('P10','Triangulation recovers intersections and optimizes its stated criterion',
'''For rays that intersect in front of both cameras every triangulation method returns that point, whatever the scale of the rays or the coordinate frame; for noisy rays each method returns the point its documented error criterion selects. Rays that diverge are reported as the zero vector and
nothing else is. Reported derivatives are the true derivatives, and the pixel-level entry points agree with the ray-level ones.''',
['inputs'],'all ray pairs, baselines and rotations; noise levels; near-parallel and diverging geometry; all six methods, ray frames and derivative requests',
'tests check two fixed points with fixed noise.',
['triangulation.cc','triangulation-genpywrap.py','mrcal/triangulation.py','triangulation.h'],
[('closed-form methods with autodiff','triangulation.cc'),('argument handling and frames','mrcal/triangulation.py')],
['mrcal.triangulate_*()','mrcal.triangulate()'])

prop('P11','Rectified stereo geometry is exact and disparity converts consistently to range',
'''Any rectified system built from two cameras puts corresponding points on the same image row, keeps the first camera at its own position looking across the requested field of view, and its rectification maps send each rectified pixel to where the same ray appears in the input image. Disparity, range
and 3D points derived from it agree with true geometry for sparse and dense, scalar, scaled and integer disparities; unusable disparities give range 0.''',
['inputs','configurations'],'all lens models, poses, rectification models, resolutions and field-of-view requests; all disparity types/scales/ranges',
'tests use one camera pair with a few requests.',
['stereo.c','mrcal/stereo.py','mrcal-pywrap.c','mrcal-genpywrap.py','stereo.h'],
[('rectified system','stereo.c:mrcal_rectified_system()'),('maps','stereo.c:mrcal_rectification_maps()'),('range','stereo.c:mrcal_stereo_range_sparse(), mrcal_stereo_range_dense()'),('feature matching','mrcal/stereo.py:match_feature()')],
['mrcal.rectified_system/rectification_maps/stereo_range/stereo_unproject/match_feature/rectified_resolution'])

prop('P12','Images survive save and load; colour mapping is monotone; bad files error out',
'''Saving any supported image and loading it back yields the same pixels (exactly for lossless formats), interoperably with other standards-compliant software, for any strides; conversion to 8 bits and colour-mapping of any array type are monotone in the value and span the stated range.
Loading a damaged or unsupported file reports an error and never crashes or reads out of bounds.''',
['inputs','fault_sequences'],'all sizes, depths, channel counts, strides, formats; all value distributions; all byte-level corruptions and truncations',
'tests save and load one ramp image.',
['image.c','stereo.c','mrcal-pywrap.c','image.h'],
[('load/save','image.c'),('stretch equalization','image.c:stretch_equalization_uint8_from_uint16()'),('colour map','stereo.c:mrcal_apply_color_map_*()')],
['mrcal.load_image/save_image/apply_color_map','mrcal_image_*_load()'])

prop('P13','Reported projection uncertainty is the linear propagation of observation noise',
'''The covariance reported for a projection equals first-order propagation of independent pixel noise through the solved least-squares problem, with the documented treatment of regularization, rotation and range (including at infinity), for each supported method. It is symmetric, positive-semidefinite,
quadruples when the noise doubles, and the scalar summaries reported are exactly those of the covariance.''',
['inputs','configurations'],'all solved problems, lens models, query points, ranges, methods and output selections',
'tests sample a few models at one or two points, with loose statistical bounds.',
['mrcal/model_analysis.py','uncertainty.c','mrcal-pywrap.c'],
[('gradient propagation','mrcal/model_analysis.py:_propagate_calibration_uncertainty(), projection_uncertainty()'),('cross-reprojection','uncertainty.c'),('worst direction','mrcal/model_analysis.py:worst_direction_stdev()')],
['mrcal.projection_uncertainty()','mrcal.worst_direction_stdev()','mrcal.model_analysis._propagate_calibration_uncertainty()'])

prop('P14','The sparse factorization solves the same systems dense algebra does',
'''For any sparse Jacobian of full column rank, the factorization object solves the normal equations for any stack of right-hand sides, in every system variant it offers, to the accuracy of dense linear algebra; it never modifies its inputs, and its condition estimate lies in (0,1]. Invalid or singular inputs raise an
error rather than giving an answer.''',
['inputs'],'all sparse matrices (shapes, sparsity, scaling), right-hand side shapes and layouts, reuse of one factorization over many solves',
'test-CHOLMOD-factorization.py checks a single 3-column matrix.',
['mrcal-pywrap.c'],
[('CHOLMOD wrapper','mrcal-pywrap.c:CHOLMOD_factorization_*')],
['mrcal.CHOLMOD_factorization(J).solve_xt_JtJ_bt(), .rcond()'])

prop('P15','Array layout never matters: broadcasting, strides, output arrays and inputs',
'''Every vectorized function gives, for a broadcast stack of inputs in any memory layout (non-contiguous, transposed, negative or zero strides, empty), exactly what it gives slice by slice on contiguous copies. Writing into a caller-supplied output array gives the same numbers, and input arrays are never modified.
Arrays of an unusable shape or type are refused with an error.''',
['inputs'],'all functions taking stacked arrays; all shapes, strides, dtypes and output arrays',
'tests mostly use contiguous arrays and one broadcasting pattern.',
['mrcal-genpywrap.py','poseutils-genpywrap.py','triangulation-genpywrap.py','mrcal/projections.py','mrcal/poseutils.py','mrcal/triangulation.py','mrcal-pywrap.c','_strides.h'],
[('validation and slice loops','*-genpywrap.py'),('stride-aware kernels','_strides.h, poseutils.c')],
['every broadcasting function of the mrcal module'])

prop('P16','No memory error or undefined behaviour for any use of the API',
'''Whatever arrays, sizes, options and sequences of calls a user passes, in Python or C, the library never reads or writes outside its buffers, uses uninitialized or freed memory, overflows, leaks without bound, or aborts the process: bad input is reported as an error.''',
['inputs','histories','fault_sequences'],'all API calls with valid, edge-case (empty, size 1, huge index, NaN/inf) and invalid arguments, and allocation-failure/short-file faults',
'the tests run uninstrumented code on valid inputs.',
['mrcal.c','mrcal-pywrap.c','uncertainty.c','image.c','stereo.c','poseutils.c','triangulation.cc','cahvore.cc','opencv.c','traverse-sensor-links.c','heap.cc','cameramodel-parser.re','python-cameramodel-converter.c'],
[('input validation','mrcal-pywrap.c:*_validate_args()'),('buffer handling','all C sources')],
['ASan/UBSan reports from instrumented builds of the library and the extension modules','valgrind on the C API'])

prop('P17','Concurrent and repeated use of the library gives unchanged results',
'''Library calls have no hidden state: the same call gives bit-identical results whenever it is made, after any other calls (including failed ones) and from any number of threads working on separate data at once, with no data race.''',
['schedules','histories'],'all interleavings of concurrent calls of projection, unprojection, pose, triangulation, cost evaluation, solving, parsing, and stereo functions; all call histories',
'the tests are single-threaded and call each function in one fixed order.',
['mrcal.c','poseutils.c','poseutils-uses-autodiff.cc','triangulation.cc','cahvore.cc','stereo.c','uncertainty.c','image.c','cameramodel-parser.re','traverse-sensor-links.c'],
[('no mutable global state','all C sources')],
['ThreadSanitizer reports','bitwise comparison of results across threads and histories'])

prop('P18','Sensor-graph traversal finds cheapest paths and visits each sensor once',
'''Given pairwise links between sensors, the traversal used to seed multi-sensor problems visits each sensor reachable from sensor 0 exactly once, in order of increasing path cost, through a neighbour on a cheapest path, for any graph and cost; it reports failure if and only if some sensor cannot be reached. The
underlying priority queue always yields its elements in order of cost.''',
['inputs','histories'],'all graphs, costs (incl. zero, ties, large), numbers of sensors incl. one; all push/pop sequences',
'tests hold two fixed graphs and one nine-element heap.',
['traverse-sensor-links.c','heap.cc','heap.h','mrcal-pywrap.c','mrcal/calibration.py'],
[('Dijkstra search over a symmetric matrix','traverse-sensor-links.c:mrcal_traverse_sensor_links()'),('heap','heap.cc')],
['mrcal.traverse_sensor_links()','mrcal_heap_*()'])

prop('P19','Projection differencing is exact about equal, moved and different cameras',
'''The reported difference between two camera models is zero for identical lenses, undoes any relative pose it is asked to fit, and equals the distance between the pixel and the reprojection through the reported implied transform, at every pixel, distance and lens model. The implied transform is never a worse fit than no transform at all in the region it was asked
to focus on. Swapping frames, stacking models, or fixing the transform changes nothing it should not.''',
['inputs','configurations'],'all model pairs/sets, poses, gridding, distances, focus regions, with/without uncertainties and explicit transforms',
'tests check a couple of pairs with fixed settings.',
['mrcal/model_analysis.py','mrcal/projections.py','mrcal/utils.py'],
[('implied transform fit','mrcal/model_analysis.py:implied_Rt10__from_unprojections()'),('difference','mrcal/model_analysis.py:projection_diff()'),('stereo pair difference','mrcal/model_analysis.py:stereo_pair_diff()')],
['mrcal.projection_diff()','mrcal.stereo_pair_diff()','mrcal.implied_Rt10__from_unprojections()'])

prop('P20','Reprojection maps and synthetic observations obey the camera geometry',
'''Image-transformation maps send every output pixel to the input pixel seeing the same ray (or the same point of the given plane), for any pair of models; reprojection models built from a field-of-view request contain the requested region and no more than needed. Simulated calibration objects and observations are exactly the projections of the reported
poses, lie in view as requested, and perfect observations have zero reprojection error before the stated noise.''',
['inputs','configurations'],'all lens models, poses, plane parameters, fit requests, board geometries and warps, sampling requests',
'tests cover one transform of each kind.',
['mrcal/image_transforms.py','mrcal/synthetic_data.py','mrcal/model_analysis.py'],
[('maps','mrcal/image_transforms.py:image_transformation_map(), transform_image(), pinhole_model_for_reprojection(), scale_focal__best_pinhole_fit()'),('synthesis','mrcal/synthetic_data.py')],
['mrcal.image_transformation_map/transform_image/pinhole_model_for_reprojection/ref_calibration_object/synthesize_board_observations/make_perfect_observations'])

prop('P21','Conversions to and from other camera-model formats preserve the camera',
'''Converting a model to CAHVOR/CAHVORE, Kalibr, ROS or OpenCV form and reading it back, through the library or the command-line tools, preserves the projection of every point and the relative pose of every camera to the text precision of the format; unsupported models are refused rather than altered.''',
['inputs'],'all convertible lens models, intrinsics, poses, imager sizes and regions',
'tests hold one stored file per format.',
['mrcal/cahvor.py','mrcal/cameramodel.py','mrcal-to-cahvor','mrcal-from-cahvor','mrcal-to-kalibr','mrcal-from-kalibr','mrcal-from-ros'],
[('CAHVOR(E)','mrcal/cahvor.py'),('OpenCV/ROS','mrcal/cameramodel.py:write(), tools')],
['mrcal.cahvor.read/write','mrcal.cameramodel(.cahvor)','tool stdout'])

prop('P22','Calibration data ingestion and seeding recover what the data says',
'''Chessboard-corner tables are turned into observations such that every row appears once, at its own frame, camera, grid position and weight, whatever the row order, file naming, comments or missing corners; unusable tables are refused. Seeds computed from noise-free observations (board poses, multi-camera
poses, joint frame poses, stereographic focal length) reproduce the true geometry.''',
['inputs','histories'],'all corner tables (names, orders, levels/weights columns, exclusions, missing detections), camera counts, poses and lens models',
'tests use a few tables from stored data.',
['mrcal/calibration.py','mrcal/utils.py'],
[('table ingest','mrcal/calibration.py:compute_chessboard_corners()'),('seeding','mrcal/calibration.py:estimate_monocular_calobject_poses_Rt_tocam(), _estimate_camera_poses(), estimate_joint_frame_poses(), seed_stereographic()'),('frame naming','mrcal/utils.py:mapping_file_framenocameraindex()')],
['mrcal.compute_chessboard_corners/estimate_monocular_calobject_poses_Rt_tocam/estimate_joint_frame_poses/seed_stereographic/mapping_file_framenocameraindex'])

prop('P23','Command-line tools agree with the library and preserve what they do not change',
'''Each command-line tool acting on models, points or corner tables outputs exactly what the corresponding library operations give on the same input, and leaves every part of the input it was not asked to change as it was. It exits nonzero, without clobbering existing output files, when it cannot do what was asked.''',
['inputs','configurations'],'all models, point lists, corner tables and options of graft-models, convert-lensmodel, reproject-points, cull-corners, rotate-corners, is-within-valid-intrinsics-region, triangulate, report-fov, reproject-image, stereo, calibrate-cameras',
'tests exercise three tools with a few fixed inputs.',
['mrcal-graft-models','mrcal-convert-lensmodel','mrcal-reproject-points','mrcal-cull-corners','mrcal-rotate-corners','mrcal-is-within-valid-intrinsics-region','mrcal-triangulate','mrcal-report-fov','mrcal-reproject-image','mrcal-stereo','mrcal-calibrate-cameras'],
[('tools','mrcal-* scripts in the top directory')],
['stdout, exit status and files of the tools'])

prop('P24','Imager sampling, region and residual helpers report true geometry',
'''Imager sampling grids span the imager corner to corner and match their unprojections; point-in-valid-region tests, polygon differences and contour closing agree with planar geometry; reported board and point residuals and hypothesised corner positions are those of the given optimization inputs, observation by observation; weighted rigid alignment returns a proper rigid
transform that is optimal for its stated cost, or all zeros when the data is degenerate.''',
['inputs'],'all grids, polygons, regions, optimization inputs and selections, point clouds and weights incl. degenerate and mirrored ones',
'tests check one example of each, or none.',
['mrcal/utils.py','mrcal/model_analysis.py','mrcal/cameramodel.py','poseutils.c'],
[('helpers','mrcal/utils.py, mrcal/model_analysis.py:is_within_valid_intrinsics_region()'),('alignment','poseutils.c:mrcal_align_procrustes_*()')],
['mrcal.sample_imager*/close_contour/polygon_difference/is_within_valid_intrinsics_region/hypothesis_board_corner_positions/measurements_board/align_procrustes_*/R_aligned_to_vector'])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))

"""writes properties.jsonl from the table below"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, quant, why, files, mech, over=("inputs",), state=(), observe=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": quant}, "why_tests_cant": why,
              "anchors": {"files": ["liboptv/src/" + f for f in files], "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mech], "observe_at": list(observe), "hook_needed": None}})


p("C01", "Pixel and metric image coordinates are exact mutual inverses",
  "Converting a pixel coordinate to millimetres centres it on the image, flips y and scales by the pixel size, taking the interlaced-field mode into account; converting back undoes it exactly. "
  "So pixel to metric to pixel, and metric to pixel to metric, return the starting coordinates for every image size, non-zero pixel size and field mode.",
  "every coordinate, image size, non-zero pixel size and field mode (0, 1, 2 and any other value)",
  "the tests sample a handful of coordinates of one camera and never the odd/even field modes in combination", ["trafo.c"],
  [("pixel_to_metric / metric_to_pixel and the old_* forms", "trafo.c")])
p("C02", "Lens distortion follows the Brown model with affine shear",
  "A flat image coordinate is distorted by shifting to the principal point, adding the radial polynomial k1..k3 and decentring p1, p2 terms of the Brown model computed from the undistorted x and y, then applying x scale and shear. "
  "This holds for every coordinate, including the distortion centre, where the output is the centre itself.",
  "every coordinate and every set of distortion parameters", "the tests use one or two parameter sets and mostly zero decentring or shear",
  ["trafo.c"], [("distort_brown_affin", "trafo.c"), ("flat_to_dist", "trafo.c")])
p("C03", "Removing lens distortion undoes the distortion model",
  "Distortion removal returns the coordinate whose distortion is the given one: when the iteration has settled on a point, distorting that point gives back exactly the input, and without Brown terms the affine shear and scale are inverted exactly. "
  "The distortion centre maps to the centre, and for distortions of realistic size the result re-distorts to the input within the requested tolerance.",
  "every coordinate, affine parameter and tolerance; convergence for small Brown terms", "tests check round trips for a few points with tiny coefficients and no shear",
  ["trafo.c"], [("correct_brown_affine_exact", "trafo.c"), ("correct_brown_affin", "trafo.c"), ("dist_to_flat", "trafo.c")])
p("C04", "The camera rotation matrix is the omega-phi-kappa rotation and is orthonormal",
  "Setting the three camera angles gives the rotation matrix that is the product of rotations about x, y and z by omega, phi and kappa. It is a proper rotation: its columns are orthonormal and its determinant is one, for all angles.",
  "all triples of angles", "tests compare single entries for one or two angle triples", ["calibration.c"], [("rotation_matrix", "calibration.c")])
p("C05", "Ray tracing through the glass obeys Snell's law",
  "Tracing an image point to the outside yields a start point and unit direction that follow the straight ray in air to the glass, refract at both glass surfaces in the plane of incidence by Snell's law with the given indices and thickness, and leave the start point on the far glass surface. "
  "With equal refractive indices the ray is the straight line through the projection centre and the image point.",
  "every image coordinate, camera pose, glass orientation, thickness and refractive index for which the ray reaches the glass",
  "tests compare one numeric ray", ["ray_tracing.c", "lsqadj.c", "vec_utils.c"], [("ray_tracing", "ray_tracing.c")])
p("C06", "Multimedia correction satisfies Snell's law and its frame change is invertible",
  "The radial shift computed for a point is one when there is a single medium or the point lies on the camera axis, and otherwise scales the point's radial distance so that the shifted straight ray meets the refraction condition to the stated accuracy. "
  "Moving a point and camera into the glass-aligned frame keeps distances along and across the glass normal, and moving back returns the original point.",
  "every point, camera pose, glass vector and medium stack", "tests check single numbers", ["multimed.c"],
  [("multimed_nlay / multimed_r_nlay", "multimed.c"), ("trans_Cam_Point / back_trans_Point", "multimed.c"), ("move_along_ray", "multimed.c")])
p("C07", "The refraction lookup table is filled and read within its grid",
  "Looking up a refraction factor reads only table cells of the grid, reports a miss for points outside it, and inside returns the bilinear blend of the four surrounding stored values, which lies between their minimum and maximum. "
  "Building the table stores at each node the directly computed factor for that node's radius and depth.",
  "every table size, cell width, origin and query position", "tests query one point of one table", ["multimed.c"],
  [("get_mmf_from_mmlut", "multimed.c"), ("init_mmlut", "multimed.c")])
p("C08", "Projection into an image obeys collinearity",
  "The flat image coordinate of a space point is the perspective projection, with the camera constant and rotation, of the refraction-shifted point in the glass-aligned frame; with a single medium and glass aligned to the camera this is plain collinearity. The image coordinate is that flat coordinate passed through the distortion model.",
  "every point not in the camera's focal plane, pose, interior parameters and medium", "tests project a few points", ["imgcoord.c", "multimed.c", "trafo.c"],
  [("flat_image_coord / img_coord", "imgcoord.c")])
p("C09", "Epipolar search windows and candidate lists are consistent",
  "The epipolar band in another image is the projection of the two ends of the viewing ray clipped to the observed depth range; a band wholly outside the sensor is reported as such. The candidate list returned for it holds exactly the in-band targets whose size, area and brightness ratios pass the thresholds, in target order, never more than the list can hold, with the reported distance and correlation computed from the target.",
  "every geometry, target list and tolerance", "tests use one camera pair and a few targets", ["epi.c"], [("epi_mm / epi_mm_2D", "epi.c"), ("find_candidate", "epi.c")])
p("C10", "Sorting returns an ordered permutation of its input",
  "Every sort used by the pipeline (targets by y, metric coordinates by x, correspondences by quality) leaves a sequence ordered by its key that is a permutation of what was passed in, for arrays of any length including empty, and touches nothing else.",
  "every array length and content, ties and duplicates included", "tests sort arrays of a few elements", ["correspondences.c", "sortgrid.c", "tracking_run.c", "track.c"],
  [("quicksort_target_y, quicksort_coord2d_x, quicksort_con", "correspondences.c")])
p("C11", "Stereo matching assigns each detection to at most one particle",
  "In the accepted correspondences no detection of any camera is used twice, every accepted clique has a candidate pairing in each camera pair it uses and a quality above the limit, and cliques are accepted in decreasing quality. The number of matches reported per clique size is the number of entries written, never more than the capacity.",
  "every candidate network and number of cameras", "tests use a few synthetic particles in ideal views", ["correspondences.c"],
  [("take_best_candidates", "correspondences.c"), ("four_camera_matching, three_camera_matching, consistent_pair_matching", "correspondences.c")])
p("C12", "The least-squares kernels compute the matrix algebra they name",
  "Forming the normal matrix gives the product of the design matrix transpose with itself, the right-hand side the product of the transpose with the observations, and the multiplication the matrix product, restricted to the leading block asked for and touching nothing else. Inverting a matrix with non-zero pivots yields its inverse.",
  "all matrix sizes, leading dimensions and contents", "tests use one 2x2 or 3x3 example each", ["lsqadj.c"], [("ata, atl, matmul, matinv", "lsqadj.c")])
p("C13", "Ray intersection and point positioning are least-distance solutions",
  "For two viewing rays that are not parallel the reported intersection is the midpoint of their common perpendicular and the reported miss distance its length. Positioning a point from several cameras averages the pairwise midpoints and distances over exactly the pairs of cameras that see it, whatever is stored for the others.",
  "all ray pairs, camera subsets and target positions", "tests use a handful of ideal rays", ["orientation.c"], [("skew_midpoint", "orientation.c"), ("point_position", "orientation.c"), ("weighted_dumbbell_precision", "orientation.c")])
p("C14", "Vector operations compute their textbook definitions",
  "Addition, subtraction, scaling, dot and cross product, norm, distance, normalisation, copy and comparison of 3-vectors compute their mathematical definitions exactly, also when the destination is one of the operands, and write only to their destination.",
  "all vectors, including zero vectors and aliased operands", "tests use single examples without aliasing", ["vec_utils.c"], [("vec_*, unit_vector", "vec_utils.c")])
p("C15", "Camera fitting uses the true sensitivities and changes only what it may",
  "The sensitivity of projected coordinates to each exterior parameter is the difference quotient of the projection at the stated step, and the calibration is unchanged afterwards. Orientation fitting returns residuals for the points it used, changes only the parameters whose flags are set, and ignores targets not identified with a reference point.",
  "all calibrations, flags and point sets", "tests fit one or two set-ups", ["orientation.c"], [("num_deriv_exterior", "orientation.c"), ("orient, raw_orient", "orientation.c")])
p("C16", "Image filters compute their definitions and never leave the image",
  "Each image operation (3x3 filter, low-pass box, image difference and mask, line split, copy, histogram) gives every output pixel the value defined by the neighbourhood it names, saturated to the grey range where documented, never reads or writes outside the image, and leaves all inputs unchanged.",
  "all image sizes, filter weights, field modes and pixel contents", "tests use 5x5 images", ["image_processing.c"], [("filter_3, lowpass_3, fast_box_blur, split, subtract_img, subtract_mask, copy_images", "image_processing.c")])
p("C17", "Target recognition reports connected bright regions within limits",
  "Every reported target passes the thresholds on pixel count, width, height and total grey value, has its weighted centre inside its bounding box and the image, and its counts consistent with that box; the image itself is unchanged. The number of targets never exceeds the capacity and no pixel outside the image is read.",
  "all images, thresholds and sub-windows", "tests use tiny images with one or two blobs", ["segmentation.c"], [("targ_rec", "segmentation.c"), ("peak_fit", "segmentation.c")])
p("C18", "Grid sorting assigns each reference point its nearest detection",
  "For every calibration reference point whose projection falls into the image (widened by the search radius), the assigned entry is a copy of the detection nearest to the projection among those strictly inside the square window of the search radius, carrying the number of the reference point; a reference point without such a detection gets none. The entries are in the order of the reference points, and finding the nearest neighbour returns the closest (and of equally close ones the first) target in the window, or none.",
  "all target lists, search radii and reference grids", "tests use one grid", ["sortgrid.c"], [("sortgrid", "sortgrid.c"), ("nearest_neighbour_pix", "sortgrid.c")])
p("C19", "Comparison functions answer whether the two objects are equal",
  "Comparing two calibrations, parameter sets, targets, correspondences or trajectory records yields true exactly when all compared attributes are equal, and writes to nothing. Equal objects compare equal and a difference in any single attribute is detected.",
  "all pairs of objects", "tests compare an object with itself or a few perturbations", ["calibration.c", "parameters.c", "tracking_frame_buf.c"],
  [("compare_* functions", "calibration.c, parameters.c, tracking_frame_buf.c")])
p("C20", "The frame buffer always presents the frames in time order",
  "After any sequence of shifts, reads and writes the ring of frames presents each stored frame at exactly one position, a shift moves every frame one step towards the past and recycles the oldest slot, and reading the next frame fills only the newest position.",
  "all buffer lengths and histories of shifts", "tests do two or three shifts of one buffer", ["tracking_frame_buf.c"], [("fb_init, fb_next, fb_prev, fb_read_frame_at_end", "tracking_frame_buf.c")], over=("inputs", "histories"))
p("C21", "Files written are read back to the same data and bad files are reported",
  "Writing targets, trajectories, calibrations or parameters and reading the file back returns the same values to the written precision. A missing, truncated or malformed file is reported as failure rather than as data, every file opened is closed, and no field overruns its buffer.",
  "all file contents and data sets", "tests round-trip single files", ["tracking_frame_buf.c", "calibration.c", "parameters.c", "sortgrid.c"], [("read_/write_ functions", "tracking_frame_buf.c, calibration.c, parameters.c")], over=("inputs", "fault_sequences"))
p("C22", "Tracking searches only, and fully, the window it predicts",
  "The predicted position is the linear extrapolation of the last two, in space and on the image. The search window in each image spans the projections of the eight corners of the box of motion limits around the prediction, clipped to the sensor. The candidates are the eligible targets strictly inside the window, in order of increasing distance from its centre, and the nearest four when there are more. Angle and acceleration used for ranking are computed from the three positions; the angle is always a number between 0 and 200 gon.",
  "all positions, limits, camera geometries and target lists", "tests use a few points", ["track.c"], [("predict, search_volume_center_moving, pos3d_in_bounds, angle_acc, candsearch_in_pix, candsearch_in_pix_rest, point_to_pixel, searchquader", "track.c")])
p("C23", "Trajectory links are mutual and one to one",
  "After each tracking step a particle linked forward to a particle in the next frame is that particle's backward link, no particle has two links in one direction, and all links are valid indices or the unlinked markers. Links are granted in order of increasing decision value.",
  "all frames and candidate rankings", "tests count links of sample runs", ["track.c", "tracking_frame_buf.c"], [("trackcorr_c_loop", "track.c"), ("reset_links, register_link_candidate", "tracking_frame_buf.c")], over=("inputs", "histories"))
p("C24", "Everything allocated is released exactly once and never used after",
  "Objects created by the library own exactly the memory they allocate: initialisation sets every field and table entry, the matching release frees every block exactly once, and no function reads or writes outside the objects it is given or uses memory it has not initialised.",
  "all sizes and call sequences", "tests run without leak or overflow checks", ["tracking_frame_buf.c", "correspondences.c", "tracking_run.c", "parameters.c", "multimed.c"],
  [("*_init / *_free / alloc_* pairs", "tracking_frame_buf.c, correspondences.c, parameters.c, tracking_run.c")], over=("inputs", "histories"))
p("C25", "The Python bindings hand data across unchanged",
  "Values passed from Python through the bindings reach the C core unchanged and results come back unchanged, with ownership kept so that no Python object outlives the memory it wraps.",
  "all Python callers", "binding tests use examples", ["../../py_bind/optv/calibration.pyx"], [("Cython wrappers", "py_bind/optv/*.pyx")], over=("programs",))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))

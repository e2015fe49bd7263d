#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property statements live here)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(
        dict(
            id=id, title=title, statement=" ".join(statement.split()),
            quantifier=dict(over=over, text=" ".join(text.split())),
            why_tests_cant=" ".join(why.split()),
            anchors=dict(
                files=files,
                state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                mechanism=[dict(name=a, where=b) for a, b in mech],
                observe_at=observe, hook_needed=None),
        )
    )


S = "pytorch3d/structures/"
T = "pytorch3d/transforms/"
O = "pytorch3d/ops/"
R = "pytorch3d/renderer/"
C = "pytorch3d/csrc/"
L = "pytorch3d/loss/"
IO = "pytorch3d/io/"
I = "pytorch3d/implicitron/"

p("C01", "Mesh batch views always agree",
  """For every batch of meshes, including batches with meshes of different sizes and with empty meshes, the list, packed and padded views
  of vertices and faces, the per-mesh counts, the packed-to-mesh index, the first-index offsets and the padded-to-packed index all describe
  the same meshes. This stays true after every documented operation (clone, detach, indexing, split, extend, offsetting and scaling
  vertices, replacing the padded vertices, taking submeshes, joining as a batch or as a scene), the result of each
  operation contains exactly the vertices and faces its documentation promises, and the input batch is left unchanged by operations that return a new object.""",
  ["inputs", "histories"], "all vertex values, several batch layouts, and all bounded sequences of operations and view accesses",
  "The tests build a few random batches and call each operation once; cached views make the result depend on which views were read before an operation, and the number of such histories is exponential.",
  [S + "meshes.py", S + "utils.py"],
  [("lazily computed and cached views, refreshed or dropped by each mutator", S + "meshes.py")],
  ["Meshes accessors: verts_list/packed/padded, faces_*, num_*_per_mesh, *_packed_to_mesh_idx, mesh_to_*_packed_first_idx, verts_padded_to_packed_idx"],
  [("_verts_list/_verts_packed/_verts_padded", "cached copies of the same data", S + "meshes.py")])

p("C02", "Mesh derived geometry matches its definition and is never stale",
  """For every mesh batch the edge list contains every undirected face edge exactly once with a consistent face-to-edge map (edge i of a face is the one opposite vertex i) and edge-to-mesh index, face
  areas and unit face normals follow the right-hand rule of the current vertices, vertex normals are the normalised area-weighted sums of the
  incident face normals, and bounding boxes are the exact coordinate minima and maxima. After vertices are offset, scaled or replaced, every
  derived quantity read afterwards equals the one of a freshly built mesh with the new vertices, no matter what had been read before.""",
  ["inputs", "histories"], "all vertex values on several connectivities, and all orders of reads and vertex updates up to the bound",
  "Tests compare one random mesh per quantity; staleness needs a specific read-update-read history, and scaling/offset shortcuts are value dependent.",
  [S + "meshes.py", C + "face_areas_normals/face_areas_normals_cpu.cpp", O + "mesh_face_areas_normals.py"],
  [("cache refresh in offset_verts_/scale_verts_/update_padded and _compute_* functions", S + "meshes.py")],
  ["edges_packed, faces_packed_to_edges_packed, faces_areas_packed, faces_normals_*, verts_normals_*, get_bounding_boxes"])

p("C03", "Point-cloud batch views always agree",
  """For every batch of point clouds, with or without normals and features and with clouds of different sizes (also empty), the list, packed and padded
  views of points, normals and features, the counts and the index maps describe the same clouds. This stays true after every documented operation (clone, detach, indexing,
  split, extend, offset, scale, update of the padded points, normals and features, subsample, joining as batch or scene); the result of each has the documented content, the box
  test marks exactly the points inside the box and bounding boxes are exact minima and maxima.""",
  ["inputs", "histories"], "all coordinate values, several batch layouts, bounded sequences of operations and reads, every outcome of random subsampling",
  "Tests sample random clouds and single operations; caches make results depend on the history of reads.",
  [S + "pointclouds.py", S + "utils.py"],
  [("lazily computed and cached views, refreshed or dropped by each mutator", S + "pointclouds.py")],
  ["Pointclouds accessors"])

p("C04", "Packing and padding are lossless and mutually inverse",
  """Converting a list of tensors to packed or padded form and back returns exactly the original list for all lengths (zero included), padded entries hold
  the requested pad value, and the index tensors returned with the packed form identify each row's list element. The packed-to-padded and
  padded-to-packed operators copy every valid row to its place, fill the rest with zeros, and each one's gradient is the exact adjoint of its forward.""",
  ["inputs"], "all tensor values and gradients, all length vectors up to the bound",
  "Tests use a few random sizes; off-by-one errors show only for particular combinations of lengths (empty element, equal lengths, max size larger than any length).",
  [S + "utils.py", O + "packed_to_padded.py", C + "packed_to_padded_tensor/packed_to_padded_tensor_cpu.cpp"],
  [("split-size bookkeeping", S + "utils.py"), ("first-index arithmetic", C + "packed_to_padded_tensor/packed_to_padded_tensor_cpu.cpp")],
  ["list_to_padded, padded_to_list, list_to_packed, packed_to_list, padded_to_packed, ops.packed_to_padded, ops.padded_to_packed"])

p("C05", "Rotation representations convert without changing the rotation",
  """Converting a valid rotation between quaternion, matrix, Euler-angle (all twelve conventions), axis-angle (both code paths) and 6D form gives a representation of the same rotation:
  matrices produced are orthonormal with determinant one, quaternions produced are unit up to sign, and converting back returns the same rotation.
  Quaternion product, inverse and application to points agree with the corresponding matrix product, inverse and application.""",
  ["inputs"], "all real quaternions (normalised or not), all rotations, angles and 6D vectors outside stated degenerate sets; all twelve Euler conventions",
  "Tests sample a few random rotations; branch selection in matrix-to-quaternion and Euler recovery depends on the sign pattern of the matrix, and errors near particular sectors are not sampled.",
  [T + "rotation_conversions.py"],
  [("best-conditioned candidate selection in matrix_to_quaternion", T + "rotation_conversions.py"), ("convention tables for Euler angles", T + "rotation_conversions.py")],
  ["pytorch3d.transforms rotation conversion functions"])

p("C06", "Exponential and logarithm maps of SO(3)/SE(3)",
  """The SO(3) exponential map returns a proper rotation about the given axis by the vector's norm (up to the documented small-angle regularisation), hat and its inverse are mutually inverse, and the relative-rotation angle is that of the relative rotation with its
  cosine clamped as documented. The SE(3) exponential returns a rigid transform in row-vector convention whose rotation is the SO(3) exponential of the rotational part and whose translation is the
  left Jacobian applied to the translational part; the logarithm maps invert the exponential maps. Inverse-cosine with linear extrapolation equals arccos inside its bounds and is continuous, linear and differentiable outside.""",
  ["inputs"], "all 3- and 6-vectors and rotations with angle in the stated range; all clamp bounds",
  "Tests compare against scipy on samples; the formula branches (small angle, clamped cosine, outside bounds) are hit only at chosen points.",
  [T + "so3.py", T + "se3.py", T + "math.py"],
  [("Rodrigues formula with clamped factors", T + "so3.py"), ("V matrix", T + "se3.py"), ("bounded linear approximation", T + "math.py")],
  ["so3_exp_map, so3_log_map, so3_rotation_angle, so3_relative_angle, hat, hat_inv, se3_exp_map, se3_log_map, acos_linear_extrapolation"])

p("C07", "Transform3d composes, inverts and applies transforms correctly",
  """A composed transform acts on points exactly as applying its parts in order, its matrix is the product of the parts' matrices in row-vector convention, and its inverse
  (in every calling form, single or composed, generic or specialised) undoes it on points. Normals are mapped by the inverse transpose so they stay perpendicular to transformed surfaces.
  Stacking, indexing, cloning and batch broadcasting select or combine exactly the per-element transforms, and none of these operations changes the transforms they are called on.""",
  ["inputs", "histories"], "all matrix entries, points and normals with non-zero homogeneous coordinate; all bounded chains over translate, scale, rotate, axis-angle and general matrices; batch 1 and N",
  "Tests multiply a handful of matrices; wrong order, shared mutable state, or a wrong specialised inverse only shows for certain chains and batch shapes.",
  [T + "transform3d.py"],
  [("lazy list of composed transforms", T + "transform3d.py"), ("specialised _get_matrix_inverse", T + "transform3d.py")],
  ["Transform3d, Translate, Scale, Rotate, RotateAxisAngle methods"])

p("C08", "Camera projection and unprojection are exact inverses in every space",
  """For every camera model (FoV perspective/orthographic, perspective/orthographic, given in NDC or in screen space) unprojecting a projected visible point with its depth returns the original world (or view)
  point, in NDC or scaled-depth form as requested. World-to-view, projection, NDC and screen outputs are mutually consistent for square and
  non-square images (the point at NDC (+1,+1) on the short side maps to the top-left image corner, x left, y up), and the reported camera centre is the world point that maps to the view origin.
  Indexing or cloning a camera batch gives the same projections as the selected cameras.""",
  ["inputs", "configurations"], "all rotations, translations, intrinsics and points with non-zero depth; each camera model, space, image aspect and flag combination",
  "Tests use random cameras in float with tolerance and few image shapes; per-model flag combinations and batch broadcasting are a large product.",
  [R + "cameras.py", R + "utils.py"],
  [("projection matrices K and their inverses", R + "cameras.py"), ("NDC/screen transforms", R + "cameras.py")],
  ["CamerasBase subclasses: transform_points*, unproject_points, get_*_transform, get_camera_center, __getitem__"])

p("C09", "Camera constructors and convention conversions preserve the view",
  """Converting between PyTorch3D and OpenCV or pulsar camera parameters yields cameras that project every 3D point to the same pixel, and converting there and back is the identity.
  Look-at construction gives an orthonormal right-handed frame placing the camera at the requested position with the target on the optical axis and the up vector in the upper half plane; the spherical-angle
  position, the eye/at/up extraction, on-the-spot rotation and batch joining are consistent with it.""",
  ["inputs", "configurations"], "all intrinsics, rotations, translations, positions and points outside degenerate sets; square and non-square images; single and batched",
  "Tests check a few random cameras; sign conventions and aspect handling interact with the image shape.",
  [R + "camera_conversions.py", R + "camera_utils.py", R + "cameras.py", "pytorch3d/utils/camera_conversions.py"],
  [("conversion formulas", R + "camera_conversions.py"), ("look_at_rotation", R + "cameras.py")],
  ["cameras_from_opencv_projection, opencv_from_cameras_projection, look_at_view_transform, camera_position_from_spherical_angles, camera_to_eye_at_up, rotate_on_spot, join_cameras_as_batch"])

p("C10", "Mesh rasterizer returns the nearest covering faces per pixel",
  """For every pixel the rasterizer returns, in order of increasing depth, at most K distinct faces of that image's mesh that are not behind the camera, not back-face culled when culling is on, and that cover the pixel centre (or lie within the blur radius of it), and it misses no nearer one.
  The barycentric coordinates reproduce the pixel centre, sum to one, are perspective-corrected and clipped as requested, depth is the interpolation of vertex depths, the signed squared distance is the distance to the triangle's
  boundary (negative inside), and unused slots hold -1; this holds for square and non-square images and any batch layout.""",
  ["inputs", "configurations"], "all vertex coordinates (one symbolic triangle at full generality, several faces with symbolic parameters), all combinations of K, blur radius, perspective correction, clipping and culling flags, image sizes up to the bound",
  "Tests compare with a slow reference on a few scenes; ties, faces crossing pixel centres and non-square scaling need specific geometry.",
  [C + "rasterize_meshes/rasterize_meshes_cpu.cpp", C + "utils/geometry_utils.h", R + "mesh/rasterize_meshes.py"],
  [("per-pixel K-best queue", C + "rasterize_meshes/rasterize_meshes_cpu.cpp"), ("2D geometry kernel", C + "utils/geometry_utils.h")],
  ["rasterize_meshes outputs pix_to_face, zbuf, bary, dists"])

p("C11", "Near-plane clipping preserves the visible part of every face",
  """Clipping faces against the near plane (and culling against the frustum) keeps unclipped faces unchanged, removes faces entirely outside, and replaces a crossing face by one or two triangles that lie exactly on the visible
  part of the original face. Barycentric coordinates and face indices converted back refer to the original unclipped face and describe the same 3D point.""",
  ["inputs"], "all vertex coordinates and clip depths, every pattern of vertices behind the plane, meshes with several faces",
  "Tests have a handful of hand-built triangles; there are several case splits (which vertex is behind) that each need correct index bookkeeping.",
  [R + "mesh/clip.py", R + "mesh/rasterize_meshes.py"],
  [("case 1-4 split of faces", R + "mesh/clip.py")],
  ["clip_faces, convert_clipped_rasterization_to_original_faces"])

p("C12", "Point rasterizer returns the nearest covering points per pixel",
  """For every pixel the point rasterizer returns, ordered by depth, the at most K nearest points of that image's cloud with non-negative depth whose squared image distance to the pixel centre is smaller than their squared radius, with
  their depth and squared distance, and -1 elsewhere; this holds for scalar and per-point radii, several clouds of different sizes, and square or non-square images.""",
  ["inputs", "configurations"], "all point coordinates and radii, K and cloud layouts up to the bound",
  "Tests compare implementations on random points; ties, borders and batch offsets are not sampled.",
  [C + "rasterize_points/rasterize_points_cpu.cpp", R + "points/rasterize_points.py", C + "rasterize_points/rasterization_utils.h"],
  [("per-pixel K-best queue", C + "rasterize_points/rasterize_points_cpu.cpp")],
  ["rasterize_points outputs idx, zbuf, dists"])

p("C13", "Neighbour queries are exact",
  """K-nearest-neighbour search returns, for every query point, exactly the min(K, length) closest valid target points (squared L2 or L1 distance) in non-decreasing order with their true distances, and zero padding beyond; ball query returns the first K valid target points in index order closer than the radius,
  padded with -1. Gathering with the returned indices yields exactly those points; the number of valid points given by the lengths is respected for every batch element.""",
  ["inputs"], "all coordinates, lengths, K, norm and radius up to the bound",
  "Tests compare with brute force on random clouds; ties, K greater than the number of points, and empty clouds need specific inputs.",
  [C + "knn/knn_cpu.cpp", C + "ball_query/ball_query_cpu.cpp", O + "knn.py", O + "ball_query.py", O + "utils.py"],
  [("bounded max-heap", C + "knn/knn_cpu.cpp"), ("early exit scan", C + "ball_query/ball_query_cpu.cpp")],
  ["knn_points, knn_gather, ball_query, masked_gather"])

p("C14", "Farthest point sampling always picks a farthest point",
  """Farthest point sampling returns min(K, length) valid indices where each one after the first maximises the distance to the points already selected (so an index repeats only when every valid point coincides with a selected one), padded
  with -1 (indices) and zero (points) up to the largest K; the first one is index zero, or any valid index with random start. The native operator and the Python reference satisfy the same specification.""",
  ["inputs"], "all coordinates, lengths, per-cloud K, and all random start choices up to the bound",
  "Random clouds never exercise ties, duplicate points or per-element K larger than the cloud.",
  [C + "sample_farthest_points/sample_farthest_points_cpu.cpp", O + "sample_farthest_points.py"],
  [("running minimum distance update", C + "sample_farthest_points/sample_farthest_points_cpu.cpp")],
  ["sample_farthest_points, sample_farthest_points_naive"])

p("C15", "Chamfer distance equals its definition",
  """The chamfer distance equals the (weighted, reduced as requested) sum over both directions of squared (or L1) nearest-neighbour distances between valid points, the normal term uses the same nearest pairs, it is non-negative, symmetric in its arguments, and zero for identical clouds.
  Padding never influences the result, one-directional mode ignores the second direction, and unreduced output gives the per-point terms with zeros at padding.""",
  ["inputs", "configurations"], "all coordinates, normals, non-negative weights, lengths and option combinations up to the bound",
  "Tests cover option combinations on random data with lengths not far from full; interaction of reductions, weights and lengths is a large product.",
  [L + "chamfer.py", O + "knn.py", C + "knn/knn_cpu.cpp"],
  [("nearest neighbours + masked reductions", L + "chamfer.py")],
  ["chamfer_distance"])

p("C16", "Point-to-mesh distances are true Euclidean distances",
  """For every point, edge and triangle the reported squared point-to-edge and point-to-face distance is the minimum over the segment or triangle, the returned index attains the minimum over all primitives of the same batch element, and triangles below the minimum area are treated as documented.
  The mesh/cloud losses are the batch-averaged means of these distances in both directions, and the two directions and the full distance arrays agree.""",
  ["inputs"], "all point and vertex coordinates (up to a rigid motion fixing the primitive's plane), batch layouts up to the bound",
  "Tests use random triangles; the closest feature (vertex, edge, face interior) is a case split whose boundaries random inputs miss.",
  [C + "point_mesh/point_mesh_cpu.cpp", C + "utils/geometry_utils.h", L + "point_mesh_distance.py"],
  [("closest-feature case split", C + "utils/geometry_utils.h")],
  ["point_mesh_face_distance, point_mesh_edge_distance, _C.point_face_array_dist, _C.point_edge_array_dist"])

p("C17", "Hand-written gradients equal the derivative of their forward",
  """For every custom differentiable operator (k-nearest-neighbour and ball-query distances, face areas and normals, face-attribute interpolation, mesh and point rasterization, sigmoid blending, alpha and weighted compositing, points-to-volumes, point-mesh distances,
  graph gather-scatter) the returned gradient equals the mathematical derivative of the forward output with respect to each differentiable input, for every incoming gradient, wherever the forward is differentiable. Padding entries receive and propagate no gradient.""",
  ["inputs", "configurations"], "all inputs and incoming gradients within each path region of the forward, sizes up to the bound",
  "Tests compare against autograd or finite differences on random points with tolerances; wrong terms that vanish or are small for typical inputs stay hidden.",
  [C + "knn/knn_cpu.cpp", C + "rasterize_meshes/rasterize_meshes_cpu.cpp", C + "rasterize_points/rasterize_points_cpu.cpp", C + "utils/geometry_utils.h",
   C + "compositing/alpha_composite_cpu.cpp", C + "compositing/norm_weighted_sum_cpu.cpp", C + "compositing/weighted_sum_cpu.cpp", C + "blending/sigmoid_alpha_blend_cpu.cpp",
   C + "face_areas_normals/face_areas_normals_cpu.cpp", C + "points_to_volumes/points_to_volumes_cpu.cpp", C + "point_mesh/point_mesh_cpu.cpp"],
  [("manually derived backward kernels", C)],
  ["autograd gradients of the public operators"])

p("C18", "Point compositing follows its blending formulas",
  """Alpha compositing returns the front-to-back transmittance-weighted sum of features, weighted sum returns the plain alpha-weighted sum, and normalised weighted sum divides by the total alpha (bounded below as documented); entries with index -1 never contribute. For alphas in [0,1] alpha and
  normalised compositing weights are non-negative and sum to at most one, so outputs stay in the convex hull of features and zero; the point renderers place the background colour exactly at pixels covered by no point.""",
  ["inputs"], "all features, alphas and index patterns up to the bound",
  "Tests use a few random fragments; missing-entry patterns in the middle of the list are rare.",
  [C + "compositing/alpha_composite_cpu.cpp", C + "compositing/norm_weighted_sum_cpu.cpp", C + "compositing/weighted_sum_cpu.cpp", R + "compositing.py", R + "points/compositor.py", R + "points/renderer.py"],
  [("per-pixel accumulation loops", C + "compositing/")],
  ["alpha_composite, norm_weighted_sum, weighted_sum, AlphaCompositor, NormWeightedCompositor"])

p("C19", "Mesh fragment blending is a convex combination with the background",
  """Hard blending returns exactly the nearest face's colour or the background; sigmoid blending returns colour of the nearest face and one minus the product of face transparencies; softmax blending returns weights over faces and background that are non-negative, sum to one, and
  order by depth and distance as in the documented formula. Empty slots never contribute, alpha lies in [0,1], and a pixel with no face is exactly the background colour with zero alpha.""",
  ["inputs"], "all colours, distances, depths, blend parameters and fragment patterns up to the bound",
  "Tests compare random fragments with reference code; degenerate fragment patterns and depth ranges are not sampled.",
  [R + "blending.py", C + "blending/sigmoid_alpha_blend_cpu.cpp"],
  [("masking by face index", R + "blending.py"), ("sigmoid product", C + "blending/sigmoid_alpha_blend.h")],
  ["hard_rgb_blend, sigmoid_alpha_blend, softmax_rgb_blend"])

p("C20", "Attribute interpolation and texture sampling",
  """Interpolating face attributes gives, for each fragment, the barycentric combination of its face's vertex attributes and zero for empty fragments. Each texture type (per-vertex, UV map, per-face atlas) samples the colours of the right mesh and face, and indexing, extending, cloning, taking submeshes of, or joining
  textured meshes gives a batch whose sampled colours and per-face vertex colours equal those of the original meshes.""",
  ["inputs", "histories"], "all attribute and texture values, barycentric coordinates and fragment patterns, batches of unequal meshes up to the bound",
  "Tests sample small textures at few points; index offsets between meshes in a batch only matter for unequal sizes.",
  [R + "mesh/textures.py", O + "interp_face_attrs.py", C + "interp_face_attrs"],
  [("packed/padded texture bookkeeping", R + "mesh/textures.py")],
  ["interpolate_face_attributes, TexturesVertex/TexturesUV/TexturesAtlas"])

p("C21", "Texture packing never overlaps and always fits",
  """Packing rectangles into one image places every rectangle, possibly turned by ninety degrees, fully inside the reported total size without any two of them overlapping; identical maps may share one place. Joining UV-textured meshes into a scene keeps, for every face, the colour
  that its own map had at its vertices.""",
  ["inputs"], "all positive integer sizes, up to the stated number of rectangles",
  "Tests pack a few random lists; overlap needs a particular relation of sizes.",
  [R + "mesh/utils.py", R + "mesh/textures.py"],
  [("corner-interval packing heuristic", R + "mesh/utils.py")],
  ["pack_rectangles, pack_unique_rectangles, TexturesUV.join_scene"])

p("C22", "Marching cubes extracts a closed, correctly placed surface",
  """Every vertex returned lies on a grid edge whose end values straddle the iso-level, at the linearly interpolated crossing, and coordinates are in voxel or normalised units as requested. Triangles separate inside from outside: within the grid interior every triangle edge
  is shared by exactly two triangles with opposite orientation, for every volume. The native and the pure Python implementation extract the same surface.""",
  ["inputs"], "all voxel values and iso-levels, all 256 sign patterns of a cell, grids up to the bound",
  "Tests use spheres and a few patterns; most of the 256 cell cases and their neighbours are never compared.",
  [C + "marching_cubes/marching_cubes_cpu.cpp", C + "marching_cubes/tables.h", C + "marching_cubes/marching_cubes_utils.h", O + "marching_cubes.py", O + "marching_cubes_data.py"],
  [("case tables", C + "marching_cubes/tables.h"), ("edge interpolation and vertex de-duplication", C + "marching_cubes/marching_cubes_cpu.cpp")],
  ["marching_cubes, marching_cubes_naive"])

p("C23", "Cubify builds exactly the boundary of the occupied voxels",
  """Cubify returns, for every voxel grid and threshold, a mesh made of exactly the unit squares (two triangles each) separating an occupied voxel (value at or above the threshold) from an unoccupied neighbour or the outside, with vertices at the positions given by the alignment option,
  each position used once, and consistent outward orientation; an empty grid gives an empty mesh and other batch elements are unaffected.""",
  ["inputs", "configurations"], "all voxel values and thresholds (all occupancy patterns) on grids up to the bound, all alignments",
  "Tests check a few fixed grids; neighbour patterns are exponential.",
  [O + "cubify.py"], [("convolution-based face visibility", O + "cubify.py")], ["cubify"])

p("C24", "Mesh subdivision keeps geometry and topology",
  """Subdividing a mesh keeps all original vertices in place, adds exactly one vertex at the midpoint of every edge, and replaces each face by four faces of the same orientation that tile it; vertex features are interpolated the same way. Results for a batch equal the
  results mesh by mesh, for homogeneous and heterogeneous batches.""",
  ["inputs"], "all vertex positions and features on several connectivities",
  "Tests check one or two meshes; heterogeneous index arithmetic depends on all sizes in the batch.",
  [O + "subdivide_meshes.py"], [("vertex/face re-indexing", O + "subdivide_meshes.py")], ["SubdivideMeshes"])

p("C25", "Point splatting into volumes conserves weight",
  """Adding a point cloud to a volume distributes each point inside the grid over its eight neighbouring voxels with non-negative trilinear weights summing to one (or to its single nearest voxel), adds exactly that weight to the densities and the weight-averaged features to the features as documented, ignores masked-out and
  out-of-grid parts, and leaves everything else unchanged. The native and Python implementations agree.""",
  ["inputs", "configurations"], "all point positions, features, masks, initial volumes; align_corners and interpolation mode combinations; small grids",
  "Tests use random points well inside grids; boundary rounding and clipping depend on exact positions.",
  [O + "points_to_volumes.py", C + "points_to_volumes/points_to_volumes_cpu.cpp"],
  [("corner weights", C + "points_to_volumes/points_to_volumes_cpu.cpp")],
  ["add_pointclouds_to_volumes, add_points_features_to_volume_densities_features"])

p("C26", "Volume grids map voxels to world coordinates consistently",
  """World-to-local and local-to-world transforms of a volume are mutually inverse, the coordinate grid lists the world position of each voxel centre as implied by voxel size, translation and corner alignment, and sampling a volume at those positions returns the stored values. Indexing, cloning and
  replacing the padded data keep each element's grid size, placement and content.""",
  ["inputs", "configurations"], "all voxel sizes, translations, points and contents; both corner alignments; unequal grids in a batch",
  "Tests use a few grids; non-cubic and unequal grids with both alignments are a large product.",
  [S + "volumes.py", R + "implicit/renderer.py"], [("VolumeLocator transforms", S + "volumes.py")],
  ["Volumes, VolumeLocator, VolumeSampler"])

p("C27", "Sampled rays are the camera rays of their pixels",
  """For every ray returned by the ray samplers, each point at a sampled depth projects through its camera to the ray's reported xy location and has the sampled view depth (or distance, when directions are unit length). Grid samplers cover exactly the requested pixel grid, Monte-Carlo samples stay within the requested
  ranges, masked sampling returns only masked-in locations, stratified depths stay inside and ordered by their strata, and depths span the requested range.""",
  ["inputs", "configurations"], "all camera parameters, ranges, depths and outcomes of the random draws; grid sizes up to the bound",
  "Tests draw random cameras once; random-draw outcomes at the ends of ranges and mask patterns are not explored.",
  [R + "implicit/raysampling.py", R + "implicit/utils.py"],
  [("two-plane unprojection", R + "implicit/raysampling.py")],
  ["MultinomialRaysampler, NDCMultinomialRaysampler, MonteCarloRaysampler, ray_bundle_to_ray_points"])

p("C28", "Ray marching weights and importance sampling",
  """Emission-absorption ray marching returns features that are the transmittance-weighted sum of per-point features with non-negative weights summing to the returned opacity, which is in [0,1]; absorption-only marching returns one minus the product of transparencies. Importance sampling along rays inverts the
  piecewise-linear cumulative distribution: samples lie inside the bins in proportion to weights, are ordered like the uniform inputs, and the native and Python implementations agree.""",
  ["inputs"], "all densities, features, bins, weights and uniform draws; ray lengths up to the bound",
  "Tests check limits with random values; zero weights, equal CDF values and draws at 0 or 1 are special.",
  [R + "implicit/raymarching.py", R + "implicit/sample_pdf.py", C + "sample_pdf/sample_pdf_cpu.cpp", I + "models/renderer/raymarcher.py"],
  [("shifted cumulative product", R + "implicit/raymarching.py"), ("binary search in the CDF", C + "sample_pdf/sample_pdf_cpu.cpp")],
  ["EmissionAbsorptionRaymarcher, AbsorptionOnlyRaymarcher, sample_pdf"])

p("C29", "Saved meshes and point clouds load back unchanged",
  """Saving a mesh or point cloud to OBJ, PLY (text and binary) or OFF and loading it again returns the same vertices (up to the written precision), faces in the same order with the same vertex indices, and the normals, texture coordinates, colours and features that the
  format stores. Loaders resolve every legal index form (relative negative indices, partial vertex/texture/normal references, polygons split into triangle fans) to the same geometry.""",
  ["inputs", "configurations"], "all coordinate values, all face indices and index forms up to the bound; format options",
  "Tests round-trip a few meshes and hand-written files; index forms combine with polygon sizes and attribute presence.",
  [IO + "obj_io.py", IO + "ply_io.py", IO + "off_io.py", IO + "pluggable.py"],
  [("face-line parser", IO + "obj_io.py"), ("header-driven element readers and writers", IO + "ply_io.py")],
  ["load_obj/save_obj, load_ply/save_ply, IO().load_mesh/save_mesh/load_pointcloud/save_pointcloud"])

p("C30", "3D box IoU is exact, symmetric and bounded",
  """For two boxes given by their eight corners, the intersection volume equals the true volume of the intersection, and IoU equals intersection over union, lies in [0,1], is symmetric, equals one for identical boxes and zero for disjoint ones. Batched results equal pairwise results and inputs that are not
  planar-faced or are degenerate are rejected.""",
  ["inputs"], "all relative placements in stated parametric families (translations, scalings, shears) of box pairs",
  "Tests compare with a sampling estimate on a few pairs; clipping is a large case split with coplanar special cases.",
  [C + "iou_box3d/iou_box3d_cpu.cpp", C + "iou_box3d/iou_utils.h", O + "iou_box3d.py"],
  [("triangle clipping against box planes", C + "iou_box3d/iou_utils.h")], ["box3d_overlap"])

p("C31", "Mesh regularisers and graph operators equal their definitions",
  """Edge loss, Laplacian smoothing (uniform, cot, cotcurv) and normal consistency equal their documented formulas with per-mesh averaging over the batch, are zero for empty batches, non-negative, and invariant to translating the meshes. Laplacian matrices have the documented entries, graph convolution sums
  neighbour features along edges (both directions when undirected), and Taubin smoothing applies its two-step filter.""",
  ["inputs", "configurations"], "all vertex positions, features and layer weights on several connectivities and batches",
  "Tests compare on one or two meshes; per-mesh weighting only matters for unequal meshes, boundary edges and isolated vertices.",
  [L + "mesh_edge_loss.py", L + "mesh_laplacian_smoothing.py", L + "mesh_normal_consistency.py", O + "laplacian_matrices.py", O + "graph_conv.py", O + "mesh_filtering.py", C + "mesh_normal_consistency", C + "gather_scatter"],
  [("packed sparse formulations", L)], ["mesh_edge_loss, mesh_laplacian_smoothing, mesh_normal_consistency, laplacian, cot_laplacian, norm_laplacian, GraphConv, taubin_smoothing"])

p("C32", "Points sampled from meshes lie on their surface",
  """Every point sampled from a mesh is a convex combination of the vertices of one face of that mesh with non-zero area, the returned normal is that face's unit normal, returned texture values are the ones at that point, and empty meshes give zeros, whatever the random draws are. Faces are drawn with probability proportional to area
  and the barycentric map covers the triangle uniformly.""",
  ["inputs"], "all vertex positions and all outcomes of the random draws; batch layouts with empty meshes",
  "Tests check statistics on fixed meshes; draws at range ends and mixed empty/non-empty batches are not explored.",
  [O + "sample_points_from_meshes.py"], [("square-root barycentric map, per-mesh face offsets", O + "sample_points_from_meshes.py")], ["sample_points_from_meshes"])

p("C33", "Lighting and shading follow the reflection model",
  """Diffuse light equals colour times the clamped cosine between unit normal and unit direction; specular light equals colour times the clamped reflected-view cosine to the shininess power and vanishes where the surface faces away; both are non-negative for non-negative colours and invariant to scaling normals or directions. Phong, Gouraud
  and flat shading combine ambient, diffuse and specular terms with texture colour and materials at the interpolated point, vertex, or face as documented, per batch element.""",
  ["inputs", "configurations"], "all normals, directions, positions, colours and materials; batch and single lights",
  "Tests use a few hand-computed configurations; broadcasting of per-batch lights, cameras and materials is a product of shapes.",
  [R + "lighting.py", R + "materials.py", R + "mesh/shading.py", R + "mesh/shader.py"],
  [("diffuse/specular formulas", R + "lighting.py"), ("_apply_lighting", R + "mesh/shading.py")],
  ["diffuse, specular, DirectionalLights, PointLights, AmbientLights, phong_shading, gouraud_shading, flat_shading"])

p("C34", "Harmonic embedding and repeated-input linear layers",
  """The harmonic embedding lists sin and cos of every input coordinate times every frequency in the documented order (optionally with the input appended), its declared output size matches, and a diagonal covariance scales each sine and cosine by its Gaussian attenuation. The linear layer with repeated second input equals an ordinary linear layer on the concatenated
  expanded inputs, with the same gradients.""",
  ["inputs", "configurations"], "all inputs, frequencies, weights; option combinations; small dimensions",
  "Tests check sample shapes and values; layout errors cancel when consumed by a learned layer.",
  [R + "implicit/harmonic_embedding.py", "pytorch3d/common/linear_with_repeat.py"],
  [("frequency outer product", R + "implicit/harmonic_embedding.py")], ["HarmonicEmbedding, LinearWithRepeat"])

p("C35", "Alignment solvers return valid similarity transforms",
  """Corresponding-point alignment returns an orthonormal rotation (a proper one unless reflections are allowed), the optimal translation and scale of the documented least-squares problem given its rotation, treats weights and lengths so that masked points have no influence, and recovers an exact similarity when one exists.
  Camera alignment applies one such transform to all cameras consistently.""",
  ["inputs", "configurations"], "all point coordinates and weights, for every orthogonal factorisation the SVD may return",
  "Tests recover random transforms without degenerate or reflected configurations for every flag.",
  [O + "points_alignment.py", O + "cameras_alignment.py", O + "utils.py"],
  [("Procrustes via SVD with determinant correction", O + "points_alignment.py")], ["corresponding_points_alignment, corresponding_cameras_alignment, wmean"])

p("C36", "Batched property containers index, gather and broadcast faithfully",
  """For every object built on the common property container (cameras, lights, materials) constructor arguments broadcast to one batch size with each element's value preserved, indexing and slicing return the selected elements' values, setting an element changes only it, gathering replicates each element's
  properties to its requested positions, and a clone is equal and independent of the original.""",
  ["inputs", "histories"], "all property values; argument kinds (number, tensor of batch 1 or N) and index forms up to the bound",
  "Tests use a few classes and shapes; broadcasting depends on the combination of argument kinds.",
  [R + "utils.py", R + "lighting.py", R + "materials.py", R + "cameras.py"],
  [("convert_to_tensors_and_broadcast, TensorAccessor", R + "utils.py")], ["TensorProperties: __getitem__, gather_props, clone, to"])

p("C37", "Implicitron batch samplers respect sequences and counts",
  """The scene batch sampler yields exactly the requested number of batches, each of the requested size whenever the chosen sequences have enough frames (never larger), made of groups of frames that each come from one sequence, used once, with the requested number of images, without repeating frames,
  and consecutive, inside one segment without larger gaps than allowed, when consecutive frames are requested; this holds for every random draw. The other index samplers and train/val/test batch builders return only valid, in-range, documented index sets.""",
  ["inputs", "configurations"], "all outcomes of the random draws; sequence lengths, group sizes and window options up to the bound",
  "Tests run a few seeds; invalid groups appear only for particular draws or sequence lengths.",
  [I + "dataset/scene_batch_sampler.py", I + "dataset/data_loader_map_provider.py", I + "dataset/utils.py"],
  [("random choice without replacement, consecutive frame windows", I + "dataset/scene_batch_sampler.py")], ["SceneBatchSampler, DoublePoolBatchSampler, SequenceDataLoaderMapProvider, SimpleDataLoaderMapProvider"])

p("C38", "Image cropping helpers keep boxes and cameras consistent",
  """Bounding-box helpers return boxes that contain the mask or box they are derived from, stay within the image after clamping, scale consistently with resizing, and convert between corner and size forms without change. After cropping and resizing a frame the adjusted intrinsics project every 3D point to the
  correspondingly moved pixel.""",
  ["inputs"], "all box coordinates, image sizes, context factors and intrinsics; small masks",
  "Tests use two or three boxes; rounding and clamping depend on exact values.",
  [I + "dataset/utils.py", I + "dataset/frame_data.py"], [("box arithmetic", I + "dataset/utils.py")],
  ["get_bbox_from_mask, clamp_box_to_image_bounds_and_round, rescale_bbox, crop_around_box, bbox_xyxy_to_xywh, adjust_camera_to_bbox_crop_, adjust_camera_to_image_scale_"])

p("C39", "Implicitron configuration expands to exactly what was declared",
  """Expanding a configurable class and turning its default arguments into a config and back builds an object with the declared defaults; overriding a member type or argument in the config changes exactly that member, and the registry returns only registered subclasses by exact name.""",
  ["configurations"], "all small class hierarchies and overrides",
  "Tests cover a fixed set of declared classes.",
  [I + "tools/config.py"], [("dataclass processing and registry", I + "tools/config.py")], ["expand_args_fields, get_default_args, registry"])

p("C40", "Implicitron ray marching, refinement and metrics equal their definitions",
  """The accumulative ray marchers return composited features, depths, opacities and weights that equal the transmittance-weighted sums for every combination of the documented options (surface thickness, density ReLU, background colour and opacity, repeated last interval, blending, given ray deltas). The ray-point refiner hands the right bins and weights to the importance sampler and returns sorted depths within the range of its inputs, keeping every input sample when asked. Depth and colour error metrics equal their masked definitions.""",
  ["inputs", "configurations"], "all densities, features, lengths, depths and masks; small sizes; option combinations",
  "Tests check a handful of limits; option combinations and partial masks are not compared with a definition.",
  [I + "models/renderer/raymarcher.py", I + "models/renderer/ray_point_refiner.py", I + "tools/metric_utils.py"],
  [("AccumulativeRaymarcherBase", I + "models/renderer/raymarcher.py")], ["EmissionAbsorptionRaymarcher, CumsumRaymarcher, RayPointRefiner, eval_depth, calc_mse, rgb_l1"])

p("C41", "Image feature sampling at 3D points",
  """Sampling image features at mesh or point-cloud vertices returns, for every vertex and feature map, the bilinear interpolation of that map at the vertex's normalised xy location with the documented orientation, corner alignment and padding, concatenated over maps, per batch element; padded vertices are handled per element.""",
  ["inputs", "configurations"], "all vertex positions and feature values, small non-square maps, option combinations",
  "Tests compare a handful of samples; axis flips cancel on symmetric inputs.",
  [O + "vert_align.py", R + "utils.py"], [("grid sampling", O + "vert_align.py")], ["vert_align, ndc_grid_sample"])

p("C42", "Local point statistics: covariances, normals and eigen-decomposition",
  """Neighbourhood covariances equal the definition over each point's k nearest neighbours, local frames are orthonormal and right-handed with curvatures sorted, normals are unit and consistently oriented as documented, and the batched 3x3 symmetric eigen-solver returns eigenvalues in ascending order and orthonormal eigenvectors
  that satisfy the eigen equation.""",
  ["inputs"], "all point coordinates and symmetric matrices outside degenerate sets",
  "Tests use random clouds; sign disambiguation depends on vote counts of neighbours.",
  [O + "points_normals.py", O + "utils.py", "pytorch3d/common/workaround/symeig3x3.py"],
  [("sign disambiguation", O + "points_normals.py")], ["get_point_covariances, estimate_pointcloud_local_coord_frames, symeig3x3"])

p("C43", "Pulsar sphere rendering",
  """The pulsar renderer draws, for every pixel, the blend of the sphere hits along that pixel's ray according to its documented soft depth-ordered formula, with forward results identical across repeated calls, and its gradients are the derivative of the rendered image.""",
  ["inputs"], "all sphere parameters and cameras", "Tests render a few scenes and compare with stored images.",
  [C + "pulsar"], [("renderer kernels", C + "pulsar/include")], ["PulsarPointsRenderer, Renderer"])

p("C44", "Splatter blending conserves colour weight",
  """Splatting each pixel's fragments onto its 3x3 neighbourhood uses non-negative kernel weights normalised per splat, assigns each splat to the foreground, surface or background layer relative to the receiving pixel's depth, and composes the layers so that the result is a convex combination of fragment colours and background.""",
  ["inputs"], "all colours, alphas, depths and splat offsets for small images", "Tests check components on tiny hand-made inputs.",
  [R + "splatter_blend.py"], [("occlusion layers, normalisation", R + "splatter_blend.py")], ["SplatterBlender"])

p("C45", "Database-backed and JSON-index datasets return the selected frames",
  """The JSON-index and SQL dataset classes return exactly the frames selected by their filters, splits and batches, with metadata joined to the right frame and sequence.""",
  ["inputs", "configurations"], "all annotation tables and filter settings", "Tests use one small dataset.",
  [I + "dataset/sql_dataset.py", I + "dataset/json_index_dataset.py"], [("SQL and pandas queries", I + "dataset/sql_dataset.py")], ["SqlIndexDataset, JsonIndexDataset"])

p("C46", "Multi-view feature pooling uses only the right views",
  """View pooling samples each source view's features (and masks, when asked) bilinearly at the projections of the 3D points, with zeros outside the image, uses only source cameras of the same sequence, and its aggregators (mean, standard deviation, their average, maximum, angle-weighted) equal the masked weighted statistics over exactly those views, leaving out the target view when requested; the result is zero where no view is valid.""",
  ["inputs", "configurations"], "all feature values, masks and sequence labels; small numbers of views", "Tests sample random tensors; masks with no valid view and mixed sequences are not explored.",
  [I + "models/view_pooler/view_sampler.py", I + "models/view_pooler/feature_aggregator.py", O + "utils.py"], [("masked weighted mean/std reducers", I + "models/view_pooler/feature_aggregator.py")], ["ViewSampler, feature aggregators, wmean"])

p("C47", "Rasterizers and shaders hand over consistent fragments end to end",
  """The mesh and point rasterizer modules apply world-to-view and projection so that depth buffers hold view-space depth and positions match the NDC convention whatever convention the camera uses, hand the user's settings (or the camera's documented defaults) to the kernels, and depth and silhouette shaders compute their
  documented values from the fragments and the camera of the own batch element. Barycentric clipping keeps valid coordinates, removes negative ones and leaves missing fragments alone; depth is interpolated for valid fragments only.""",
  ["inputs", "configurations"], "all vertex coordinates and camera parameters; camera types and image shapes up to the bound",
  "Tests render reference images on GPU or few scenes.",
  [R + "mesh/rasterizer.py", R + "points/rasterizer.py", R + "mesh/utils.py", R + "mesh/shader.py"],
  [("transform()", R + "mesh/rasterizer.py")], ["MeshRasterizer.transform, PointsRasterizer.transform, HardDepthShader, SoftSilhouetteShader"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))

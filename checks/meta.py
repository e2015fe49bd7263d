"""per property: functions encoded, bounds and assumptions (goes into the evidence and the manifest)"""
REALS = "floating point arithmetic is modelled by exact real arithmetic (rounding, overflow, NaN and infinities are outside the claim unless produced by an explicit constant)"

META = {
    "C05": dict(
        functions=["pytorch3d.transforms.rotation_conversions (all conversions)"],
        bounds="batches of one or two rotations; all real components symbolic; euler conventions: all 12",
        assumptions=[REALS, "euler extraction outside gimbal lock; logarithm-like conversions outside the small-angle cut-offs stated per harness"],
    ),
}

GEOM = "the regularising constants below 1.1e-8 added to denominators (kEpsilon, 1e-8) are modelled by exactly 0 and non-degenerate denominators are assumed"
META["C12"] = dict(cpp=True,
    functions=["_C.rasterize_points (naive CPU kernel)", "pytorch3d.renderer.points.rasterize_points.rasterize_points / rasterize_points_python"],
    bounds="images up to 4x2 / 3x3 pixels; one fully symbolic point, several points with symbolic depths, radii or one coordinate; K up to 3; batch layouts with empty clouds",
    assumptions=[REALS])
META["C13"] = dict(cpp=True,
    functions=["_C.knn_points_idx, knn_points_backward, ball_query (CPU)", "pytorch3d.ops.knn_points / knn_gather / ball_query"],
    bounds="up to 3 query and 4 reference points per cloud, K up to 4, dimensions 1 to 3, batches with unequal lengths; all coordinates symbolic",
    assumptions=[REALS])
META["C14"] = dict(cpp=True,
    functions=["_C.sample_farthest_points (CPU)", "pytorch3d.ops.sample_farthest_points, sample_farthest_points_naive"],
    bounds="up to 4 points per cloud, up to 3 clouds, K up to 5; all coordinates symbolic; every random start",
    assumptions=[REALS])
META["C15"] = dict(
    functions=["pytorch3d.loss.chamfer_distance", "pytorch3d.ops.knn_points (through _C.knn_points_idx)"], cpp=True,
    bounds="clouds of up to 3 points, batches of up to 2 with unequal lengths, all option combinations (norm, reductions, weights, single direction, normals)",
    assumptions=[REALS])
META["C16"] = dict(cpp=True,
    functions=["_C.point_face_dist_forward, face_point_dist_forward, point_edge_dist_forward, edge_point_dist_forward, point_*_array_dist_forward", "pytorch3d.loss.point_mesh_edge_distance / point_mesh_face_distance"],
    bounds="arbitrary point and segment; triangles fixed or in coordinate planes with symbolic shape, symbolic point; batches of up to 3 with up to 2 primitives",
    assumptions=[REALS, GEOM])

EMPTY = "batches without any face (point) at all are 'empty' objects by design; operations on them are outside the claim"
META["C01"] = dict(
    functions=["pytorch3d.structures.Meshes (construction, all views, counts, index maps, clone, detach, indexing, split, extend, offset/scale, update_padded, submeshes)", "join_meshes_as_batch, join_meshes_as_scene", "structures.utils"],
    bounds="batches of up to 3 meshes with up to 4 vertices and 3 faces, with hole and size-uneven layouts, list and padded construction; every vertex coordinate and update symbolic; one or two operations with cached views read before each",
    assumptions=[REALS, EMPTY])
META["C02"] = dict(
    functions=["pytorch3d.structures.Meshes (edges, face areas and normals, vertex normals, bounding boxes, cache invalidation)", "_C.face_areas_normals_forward"], cpp=True,
    bounds="batches of up to 3 meshes of up to 4 vertices; one symbolic coordinate per vertex with the two others fixed (each of the three in turn); all updates symbolic; sequences of up to two updates with derived data read before each",
    assumptions=[REALS, GEOM])
META["C03"] = dict(
    functions=["pytorch3d.structures.Pointclouds (construction, views, counts, index maps, operations)", "join_pointclouds_as_batch / _as_scene"],
    bounds="batches of up to 3 clouds of up to 3 points with and without normals and features; coordinates and updates symbolic; one or two operations with cached views read before each",
    assumptions=[REALS, EMPTY])
META["C04"] = dict(cpp=True,
    functions=["pytorch3d.structures.utils (list_to_padded, padded_to_list, list_to_packed, packed_to_list, padded_to_packed)", "pytorch3d.ops.packed_to_padded / padded_to_packed", "_C.packed_to_padded, _C.padded_to_packed"],
    bounds="up to 3 list elements of up to 3 rows, 1 to 3 dimensions; all values and gradients symbolic; list_to_padded of only empty tensors without pad_size is outside the claim",
    assumptions=[REALS])

META["C10"] = dict(cpp=True,
    functions=["_C.rasterize_meshes (naive CPU kernel, 1 to 3 threads)", "pytorch3d.renderer.mesh.rasterize_meshes.rasterize_meshes / rasterize_meshes_python"],
    bounds="images up to 3x2 pixels; triangles of six shapes at a symbolic position or with one fully symbolic vertex, symbolic depths, blur, culling, perspective correction and clipping; up to four overlapping faces with K up to 4; batches with empty meshes",
    assumptions=[REALS, GEOM, "the coarse-to-fine CUDA path is not built in this sandbox"])

META["C18"] = dict(cpp=True,
    functions=["_C.accum_alphacomposite, accum_weightedsum, accum_weightedsumnorm (CPU)", "pytorch3d.renderer.compositing", "AlphaCompositor, NormWeightedCompositor"],
    bounds="up to 3 layers, 2 features, 2x2 pixels, every pattern of valid / missing point indices; opacities and features symbolic",
    assumptions=[REALS])
META["C25"] = dict(cpp=True,
    functions=["_C.points_to_volumes_forward (CPU)", "pytorch3d.ops.add_points_features_to_volume_densities_features (native and Python)", "add_pointclouds_to_volumes"],
    bounds="one point anywhere around a 2x2x2 grid; one free coordinate on grids up to 3x1x2; three points per cloud with masks and different grid sizes inside a padded volume; features and initial content symbolic",
    assumptions=[REALS, "in mode 'nearest' points exactly halfway between two voxels are excluded"])
META["C28"] = dict(cpp=True,
    functions=["_C.sample_pdf (CPU, 1 to 4 threads)", "pytorch3d.renderer.implicit.sample_pdf", "EmissionAbsorptionRaymarcher, AbsorptionOnlyRaymarcher"],
    bounds="up to 4 samples per ray and 4 bins; densities, features, weights and random draws symbolic",
    assumptions=[REALS, "surface_thickness >= 1; sample_pdf_python with eps = 0 is excluded"])

NOT_APPLICABLE = {
    "C29": "the writers and readers go through formatted text (printf-style float formatting, tokenising, float parsing) and binary buffers; decimal formatting and parsing of a symbolic real is not expressible for the solvers within reach, and running it on concrete numbers would be sampling",
    "C30": "the exact IoU clips 24 triangles against 6 planes with tolerance tests on every vertex: one symbolic translation already gives thousands of feasible paths with products of float tolerances, beyond the time of a check; fixing the boxes would be enumeration of concrete runs",
    "C35": "the solver of the least-squares problem is torch.linalg.svd; with the SVD as a contract (orthogonal factors, sorted non-negative values) optimality needs nonlinear real arithmetic over 3x3 orthogonal factors that neither z3 nor cvc5 decides within reach",
    "C39": "dataclass rewriting, type inspection and registry are run-time code generation over class objects: there is no numeric or symbolic input domain to encode, only concrete class definitions to enumerate",

    "C42": "the eigen-solver uses trigonometric roots (acos, cos of a third of the angle) of the characteristic polynomial; its correctness needs the triple-angle identity over uninterpreted functions together with degree-6 nonlinear arithmetic, which the solvers do not decide",
    "C43": "the pulsar renderer is built on its own allocator, threads and templates for devices with single-precision bit tricks (float keys sorted as integers, atomics); it cannot be compiled over the symbolic scalar type",
    "C45": "the selection is done by pandas, sqlalchemy and sqlite (native code outside the repository), which cannot be executed symbolically",
}

META["C11"] = dict(cpp=True,
    functions=["pytorch3d.renderer.mesh.clip.clip_faces, convert_clipped_rasterization_to_original_faces", "rasterize_meshes / rasterize_meshes_python with z_clip_value and cull_to_frustum", "_C.rasterize_meshes (CPU)"],
    bounds="one to three faces, every pattern of vertices in front of and behind the plane; symbolic vertices; images of up to 3x2 pixels for the rendered comparison; batches with empty meshes",
    assumptions=[REALS, GEOM, "pixels whose centre lies exactly on the internal diagonal of a face split in two are outside the claim"])
META["C22"] = dict(cpp=True,
    functions=["_C.marching_cubes (CPU)", "pytorch3d.ops.marching_cubes / marching_cubes_naive"],
    bounds="one cell with eight symbolic values on either side of the iso-level (all 256 patterns), or equal to it; grids up to 4x3x2 / 3x3x3 with up to five symbolic voxels; symbolic and default iso-level; batches of three",
    assumptions=[REALS, "voxels differ from the iso-level by at least 2^-5 or equal it (the code snaps within 1e-5)", "closedness of larger volumes follows from the one-cell harness: the segments in which a cell's surface meets a face are shown to depend on that face alone"])
META["C26"] = dict(
    functions=["pytorch3d.structures.Volumes, VolumeLocator", "pytorch3d.renderer.implicit.renderer.VolumeSampler"],
    bounds="batches of up to three grids of up to 5 voxels per axis with equal and different sizes; symbolic voxel sizes, translations, densities, features and points",
    assumptions=[REALS, "grids with a single voxel along an axis are outside the claim (their documented mapping is singular)"])
META["C06"] = dict(
    functions=["pytorch3d.transforms.so3 (so3_exp_map, so3_log_map, so3_rotation_angle, so3_relative_angle, hat, hat_inv)", "pytorch3d.transforms.se3 (se3_exp_map, se3_log_map)", "pytorch3d.transforms.math.acos_linear_extrapolation"],
    bounds="batches of one and two; vectors along and off the axes with symbolic angle and components; all clamp bounds and extrapolation bounds; angles below and above the small-angle regularisation",
    assumptions=[REALS, "sine and cosine are modelled as a point of the unit circle tied to its angle; arccos by its defining equations"])
META["C07"] = dict(
    functions=["pytorch3d.transforms.Transform3d, Translate, Scale, Rotate, RotateAxisAngle (construction, compose, inverse, get_matrix, transform_points, transform_normals, stack, clone, indexing)"],
    bounds="chains of up to three transforms from all classes and a general matrix; batch sizes 1 and 2 on transforms and points; every calling form of compose and inverse; every documented index type",
    assumptions=[REALS, "general matrices are affine with non-zero determinant (invertible part symbolic)"])
META["C08"] = dict(
    functions=["pytorch3d.renderer.cameras (CamerasBase, FoVPerspectiveCameras, FoVOrthographicCameras, PerspectiveCameras, OrthographicCameras: projection, NDC and screen transforms, unproject_points, get_camera_center, clone, indexing)", "get_ndc_to_screen_transform / get_screen_to_ndc_transform", "pytorch3d.transforms.Transform3d"],
    bounds="one to three cameras, up to two points each; every intrinsic parameter, a free calibration matrix, rotation, translation and points symbolic; images 4x4, 2x4 and 8x4",
    assumptions=[REALS, "perspective cameras: points with non-zero depth; calibration matrices of the documented sparsity with an invertible 2x2 focal part"])
META["C09"] = dict(
    functions=["pytorch3d.utils.camera_conversions (OpenCV and pulsar conversions)", "look_at_view_transform, look_at_rotation, camera_position_from_spherical_angles", "camera_to_eye_at_up, rotate_on_spot, join_cameras_as_batch", "pulsar Renderer._transform_cam_params"],
    bounds="one and two cameras with free rotation, translation and intrinsics; images 4x4, 2x4, 8x4 (pulsar: every pixel of 2x4 and 4x2); look-at frames from two free turns (three in the thorough tier), free distance, target and up vector",
    assumptions=[REALS, "camera matrices without skew; pulsar principal points at whole pixels from the centre; up vectors not parallel to the viewing direction"])
META["C17"] = dict(cpp=True,
    functions=["_C.*_backward kernels: knn_points, face_areas_normals, rasterize_meshes, rasterize_points, sigmoid_alpha_blend, accum_alphacomposite, accum_weightedsum, accum_weightedsumnorm, points_to_volumes, point_face_dist, face_point_dist, point_edge_dist, edge_point_dist, point_edge_array_dist, gather_scatter", "the torch.autograd.Function wrappers around them", "interpolate_face_attributes (Python path used on CPU)"],
    bounds="the forward harness sizes of C10, C12, C13, C16, C18 and C25 with every upstream gradient symbolic; reference: autograd derivative of the documented forward formula",
    assumptions=[REALS, GEOM, "points where the forward is not differentiable (ties between equally near primitives, barycentric coordinates equal to zero, clamping thresholds) are excluded", "the derivative of the reference is taken by PyTorch's autograd over symbolic tensors"])
META["C19"] = dict(cpp=True,
    functions=["pytorch3d.renderer.blending (hard_rgb_blend, sigmoid_alpha_blend, softmax_rgb_blend)", "_C.sigmoid_alpha_blend (CPU)"],
    bounds="up to 3 slots, 2x2 pixels, every pattern of empty slots; colours, distances, depths and backgrounds symbolic; the exact softmax formula with sigma 0.5, gamma 0.25, signs and sums of the weights also with the default gamma",
    assumptions=[REALS, "softmax formula: the documented floor of the background weight is not reached (it is in the harness with the default gamma)"])
META["C20"] = dict(
    functions=["pytorch3d.ops.interp_face_attrs.interpolate_face_attributes (CPU path)", "pytorch3d.renderer.mesh.textures (TexturesVertex, TexturesAtlas, TexturesUV with one and several maps: construction, sample_textures, faces_verts_textures_packed, indexing, extend, clone, detach, submeshes, join_batch, join_scene)", "pytorch3d.structures.Meshes (the same operations), join_meshes_as_batch, join_meshes_as_scene"],
    bounds="batches of up to four meshes with 1 to 3 faces, list and padded inputs, atlas resolutions 1 to 3, maps of up to 3x3 texels and 1 to 4 maps per mesh; texture values, attributes and barycentric coordinates symbolic; every align_corners, padding and sampling mode",
    assumptions=[REALS, "uv locations inside [-0.25, 1.25]; exact ties between texels of nearest sampling excluded", "maps of different sizes are compared with the documented resampling, not with the map before it"])
META["C21"] = dict(
    functions=["pytorch3d.renderer.mesh.utils (pack_rectangles, pack_unique_rectangles, _try_place_rectangle)", "TexturesUV.join_scene, _place_map_into_single_map", "join_meshes_as_scene"],
    bounds="every list of two and three rectangles with sides from 1 to 4096; lists of four (and a part of those of five) given from the largest to the smallest; scenes of two to four meshes with maps of up to 4x4 texels, one symbolic uv location in [0, 1] at a time, all texels symbolic",
    assumptions=[REALS, "exact ties between texels of nearest sampling excluded", "uv locations outside [0, 1] are outside the claim (documented)"])
META["C23"] = dict(
    functions=["pytorch3d.ops.cubify", "pytorch3d.renderer.mesh.textures.TexturesAtlas (colours of the faces)"],
    bounds="every occupancy of grids up to 2x2x2 (thorough: 12 voxels), batches of up to three small grids, every occupancy of a 2x2x2 block inside grids of 3x3x3 and 2x3x4 with four backgrounds; voxel values symbolic (equal to the threshold included), three alignments",
    assumptions=[REALS, "axes with a single voxel only with align=\"corner\" (the other alignments divide by zero there)"])
META["C24"] = dict(
    functions=["pytorch3d.ops.SubdivideMeshes (subdivide_faces, subdivide_homogeneous, subdivide_heterogenerous)"],
    bounds="ten topologies of up to 6 vertices, eleven mixed batches (meshes without faces or vertices included), every pair of different faces on four vertices; vertices and features symbolic; up to two rounds",
    assumptions=[REALS])
META["C27"] = dict(
    functions=["pytorch3d.renderer.implicit.raysampling (MultinomialRaysampler, NDCMultinomialRaysampler, MonteCarloRaysampler, GridRaysampler, NDCGridRaysampler, _safe_multinomial, _xy_to_ray_bundle, _jiggle_within_stratas, _sample_cameras_and_masks, _pack_ray_bundle)", "ray_bundle_to_ray_points", "CamerasBase.unproject_points(from_ndc=True) of the four camera models", "_C.padded_to_packed"],
    bounds="grids of up to 3x3 pixels, one to three cameras with free parameters, up to four points per ray, up to three rays per image or in total; every random draw (draws are nondeterministic values in their documented range)",
    assumptions=[REALS, "orientations of FoV orthographic cameras and of pairs of screen cameras fixed to the identity in the quick tier; identity orientation for unit directions", "the distribution of the random draws is outside the claim"], cpp=True)
META["C31"] = dict(
    functions=["pytorch3d.loss (mesh_edge_loss, mesh_laplacian_smoothing, mesh_normal_consistency)", "pytorch3d.ops (laplacian, cot_laplacian, norm_laplacian, GraphConv with gather_scatter_python, taubin_smoothing)", "Meshes.laplacian_packed", "_C.mesh_normal_consistency_find_verts"],
    bounds="ten topologies of up to five vertices and four faces (three faces on an edge, isolated vertices, meshes without faces or vertices), batches of up to three meshes; all vertices symbolic for edge loss, matrices and uniform smoothing, one or two vertices per mesh for the other losses; graphs of three vertices",
    assumptions=[REALS, "edge lengths and face areas bounded away from zero", "uniform and cotangent smoothing: every vertex is on a face (the documented matrix entries and the documented sum differ for others)", "the gather/scatter kernel and gradients are decided by C17"], cpp=True)
META["C33"] = dict(cpp=True,
    functions=["pytorch3d.renderer.lighting (diffuse, specular, AmbientLights, DirectionalLights, PointLights)", "pytorch3d.renderer.mesh.shading (phong_shading, flat_shading, gouraud_shading, _apply_lighting)", "pytorch3d.renderer.materials.Materials", "_C.face_areas_normals_forward (normals of flat shading)"],
    bounds="up to four points of one or two batch elements, one or two lights and materials; diffuse: everything symbolic; specular: colours and one of normal, direction, camera, point symbolic, shininess 1 to 4; shading: one or two meshes, two pixels each, textures and colours symbolic",
    assumptions=[REALS, "normals and directions longer than 1/4 (the normalisers' floor is outside the claim)", "fixed normals and light positions in the shading harnesses"])
META["C34"] = dict(
    functions=["pytorch3d.renderer.implicit.harmonic_embedding.HarmonicEmbedding (forward, get_output_dim, get_output_dim_static)", "pytorch3d.common.linear_with_repeat.LinearWithRepeat (forward)"],
    bounds="one to five frequencies, inputs of up to three dimensions with up to three coordinates, optional variances; linear layers with free weights and bias, two shapes of repetition",
    assumptions=[REALS, "sine, cosine and exp are uninterpreted functions of exactly compared arguments, with the identities listed in DESIGN.md"])
META["C36"] = dict(
    functions=["pytorch3d.renderer.utils (TensorProperties: construction, __len__, __getitem__, clone, gather_props; TensorAccessor get and set; convert_to_tensors_and_broadcast, format_tensor)", "AmbientLights, DirectionalLights, PointLights, Materials, the four camera classes (construction, clone, gather_props)"],
    bounds="nine classes, batches of one to three, four spreads of full-size and single-element arguments, seven indices, up to four requested positions with symbolic batch indices; all property values symbolic; eight kinds of argument in pairs and triples",
    assumptions=["values are moved, not computed: equality is exact", "indexing of cameras (a new object) is decided by C08"])
META["C44"] = dict(
    functions=["pytorch3d.renderer.splatter_blend.SplatterBlender.forward (_prepare_pixels_and_colors, _compute_occlusion_layers, _compute_splatting_colors_and_weights, _offset_splats, _compute_splatted_colors_and_weights, _normalize_and_compose_all_layers)", "FoVPerspectiveCameras.transform_points_screen"],
    bounds="images of up to 2x3 pixels with up to three fragments each, batches of two, layouts with background; depths of one or two pixels and all colours symbolic; two kernel widths",
    assumptions=[REALS, "fragments lie at pixel centres, as the shader produces them in the forward pass", "depths between 0 and 7/8, sorted inside a pixel; the splatting kernel's constants are shared symbols of the code and the reference"])
META["C32"] = dict(cpp=True,
    functions=["pytorch3d.ops.sample_points_from_meshes (sample_points_from_meshes, _rand_barycentric_coords)", "Meshes.sample_textures (TexturesVertex, TexturesAtlas)", "_C.face_areas_normals_forward, _C.packed_to_padded"],
    bounds="nine batches of up to three meshes with up to three faces (faces without area, meshes without faces or vertices included), one or two samples per mesh, one symbolic vertex at a time; every outcome of the draws",
    assumptions=[REALS, "faces have an area of zero or bounded away from it", "draws are nondeterministic values in their documented range (faces with weight zero are never drawn); proportionality is decided on the weights handed to the draw, uniformity by the area preservation of the map from the draws to the face"])
META["C38"] = dict(
    functions=["pytorch3d.implicitron.dataset.utils (get_bbox_from_mask, crop_around_box, clamp_box_to_image_bounds_and_round, bbox_xyxy_to_xywh, bbox_xywh_to_xyxy, get_clamp_bbox, rescale_bbox, resize_image, adjust_camera_to_bbox_crop_, adjust_camera_to_image_scale_)", "FrameData.crop_by_given_bbox_, resize_frame_"],
    bounds="every mask of up to 3x3 pixels with two or more pixels set; boxes with free coordinates; images of up to 4x6 pixels with symbolic pixels; free intrinsics and points",
    assumptions=[REALS, "masks with one pixel or without pixels above the threshold (documented fallback by lowering the threshold) are outside the claim", "resizing with nearest sampling and side ratios that give whole sizes"])
META["C41"] = dict(
    functions=["pytorch3d.ops.vert_align", "pytorch3d.renderer.utils (ndc_grid_sample, ndc_to_grid_sample_coords)", "Meshes.verts_padded_to_packed_idx, Pointclouds.padded_to_packed_idx"],
    bounds="batches of one to three tensors, meshes or clouds of up to three points (one symbolic at a time), one or two maps of up to 3x3 texels with symbolic features; every sampling, padding and corner option; NDC sampling of images of up to 2x4 and 4x2 pixels",
    assumptions=[REALS, "locations inside [-1.25, 1.25]; exact ties between texels of nearest sampling excluded"])
META["C37"] = dict(
    functions=["pytorch3d.implicitron.dataset.scene_batch_sampler.SceneBatchSampler (all methods, _cull_short_segments, _capped_random_choice)", "data_loader_map_provider (DoublePoolBatchSampler, SequenceDataLoaderMapProvider, SimpleDataLoaderMapProvider)", "dataset.utils (is_known_frame, is_known_frame_scalar, is_train_frame)"],
    bounds="up to four sequences of up to five frames, one to three categories, batches of up to six frames; frame times and numbers symbolic (increasing); pools of up to four frames; datasets of up to four frames",
    assumptions=["every draw of numpy, torch and random is an unconstrained value of the solver in its documented range; sampling without replacement draws distinct positions", "frames are increasing in the order that the dataset gives"])
META["C46"] = dict(
    functions=["pytorch3d.implicitron.models.view_pooler (ViewSampler, project_points_and_sample, handle_seq_id, cameras_points_cartesian_product, ViewPooler)", "feature_aggregator (the four aggregators, _avgmaxstd_reduction_function and its reducers, angle and view masks)", "pytorch3d.ops.wmean, pytorch3d.renderer.utils.ndc_grid_sample"],
    bounds="one or two clouds of two points (one coordinate symbolic), up to three fixed views with different intrinsics, every assignment of sequences, two feature maps of up to 2x3 and 3x2 texels with symbolic values and masks; aggregation of up to two elements and three views with symbolic features, weights and masks",
    assumptions=[REALS, "points in front of the views (points behind a view are projected with the documented minimum depth and are not masked)", "max pooling with masks of 0 and 1; weighted means over axes of size one of the weights are outside", "weights with the floors of the code (1e-2, 1e-4)"])
META["C47"] = dict(cpp=True,
    functions=["pytorch3d.renderer.mesh.rasterizer.MeshRasterizer (transform, forward)", "pytorch3d.renderer.points.rasterizer.PointsRasterizer (transform, forward)", "pytorch3d.renderer.mesh.shader (HardDepthShader, SoftDepthShader, SoftSilhouetteShader)", "pytorch3d.renderer.mesh.utils (_clip_barycentric_coordinates, _interpolate_zbuf)", "MeshRenderer, MeshRendererWithFragments", "get_ndc_camera_transform and projection of six camera kinds"],
    bounds="batches of two meshes or clouds of three and four vertices (one symbolic), one or two cameras with symbolic focal length, principal point, aspect ratio or extent; images of up to 2x2 pixels with up to two fragments, every filling pattern of two pixels, symbolic depths, distances and far planes",
    assumptions=[REALS, "the kernels themselves are decided by C10 to C12, the colour shaders by C33, C19 and C20", "fixed camera poses in front of the objects"])
META["C40"] = dict(
    functions=["implicitron AccumulativeRaymarcherBase.forward (EmissionAbsorptionRaymarcher, CumsumRaymarcher)", "RayPointRefiner.forward", "metric_utils.eval_depth, estimate_depth_scale_factor, calc_mse, rgb_l1"],
    bounds="two marchers x eleven option combinations, up to six rays of three or four points, symbolic densities, features, lengths and deltas; refinement of one or two rays of four lengths by one or two samples; images of two valid pixels for the metrics",
    assumptions=[REALS, "importance sampling inside the refiner is replaced by arbitrary samples between the first and the last bin (the sampler itself is decided by C28)", "the density noise option, voxel grids and image quality metrics of trained models are outside the claim", "exp is an uninterpreted function in the solver; equalities are decided by congruence"])

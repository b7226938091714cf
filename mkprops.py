"""Regenerates properties.jsonl (kept as code so statements stay in one readable place)."""
import json, os
P = []
F = "IMTreatment/core/"
def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))

prop("C01", "Fields stay well formed through import and every transformation",
 "After a successful import, and after any crop, extension, rotation, scaling, unit change, fill, coarsening, mask, value or unit assignment or arithmetic (in place or not, also when the arguments are rejected), a scalar or vector field has exactly one value (per component) and one mask flag per grid node, its axes keep one entry per column/row and are strictly increasing when the source axes were strictly monotonic, and its units are pure units (numeric part 1). A masked node always reads as NaN, and a NaN is always masked (assigned masks hiding at least what was masked; quotients by zero excepted). Importing or assigning arrays that do not fit the grid, or quantities that are not units, is refused and leaves the field as it was.",
 ["inputs", "histories"], "every pair of axes (length >= 2), every value/mask array, every unit, and the result of every transformation applied to a well-formed field",
 "tests check three fixed fields; the invariant must hold for every shape (square or not), mask layout and parameter",
 [F+"field.py", F+"scalarfield.py", F+"vectorfield.py"],
 [("shape guards in setters and import", F+"scalarfield.py"), ("mask setter", F+"vectorfield.py")],
 ["axe_x/axe_y/values/comp_x/comp_y/mask/unit_* of the result"])
prop("C02", "Importing arrays attaches every value and mask flag to its node",
 "Importing axes, values and an optional mask into a scalar or vector field yields a field in which the node at position (x, y) carries exactly the value and the mask flag that the caller's arrays associate with (x, y), whether an axis was given in increasing or decreasing order, as a vector or as a 2-D coordinate grid, and whether a non-square array was given transposed or not. The imported field keeps no reference to the caller's arrays.",
 ["inputs"], "all axes lengths, axis orders, masks (none, flag, array), transposed non-square arrays",
 "tests import increasing axes with fixed arrays only",
 [F+"scalarfield.py", F+"vectorfield.py"],
 [("import_from_arrays", F+"scalarfield.py"), ("import_from_arrays", F+"vectorfield.py")],
 ["values/comp/mask at every node after import; later writes to the input arrays"])
prop("C03", "Cropping keeps exactly the nodes inside the window, unchanged",
 "Cropping a field to a coordinate window keeps exactly the nodes whose coordinates lie inside the closed window, and cropping by indices keeps exactly the requested index range (both ends included, up to the field's edge); each kept node keeps its coordinates, value, mask flag and units. A window that does not meet the field is rejected instead of returning wrong data.",
 ["inputs"], "all increasing axes, all windows (including outside the field or between two nodes), both modes",
 "tests crop two hand-picked windows on one field",
 [F+"field.py", F+"scalarfield.py", F+"vectorfield.py"],
 [("Field.crop / get_indice_on_axe", F+"field.py"), ("crop", F+"scalarfield.py"), ("crop", F+"vectorfield.py")],
 ["axes, values, mask of the cropped field"])
prop("C04", "Rotating by multiples of 90 degrees is the geometric rotation",
 "Rotating a field by any multiple of 90 degrees moves the value, mask flag and axis units of the node at (x, y) to the node at the rotated position about the origin, and rotates the components of a vector field by the same angle; any other angle is rejected. Four quarter turns give back the original field.",
 ["inputs"], "all fields, all integer multiples of 90 degrees (also negative or above 360), in place or not",
 "tests compare one rotation with a stored result",
 [F+"field.py", F+"scalarfield.py", F+"vectorfield.py"],
 [("rotate", F+"field.py"), ("rotate", F+"scalarfield.py"), ("rotate", F+"vectorfield.py")],
 ["axes, values, components, mask, units after rotation"])
prop("C05", "Scaling and origin shifts move coordinates and values exactly",
 "Scaling a field by factors (plain numbers of either sign, or quantities with units) multiplies each node's coordinates and values by exactly those factors, keeps axes increasing by reversing the node order for negative factors together with values and mask, flips the matching vector component under an axis reversal, and multiplies the units accordingly. Shifting the origin subtracts exactly the given offsets from the coordinates and changes nothing else.",
 ["inputs"], "all fields, all non-zero scale factors and quantities, all offsets",
 "tests only use positive factors on one field",
 [F+"field.py", F+"scalarfield.py", F+"vectorfield.py", F+"profile.py", F+"points.py"],
 [("scale / set_origin", F+"field.py"), ("scale", F+"scalarfield.py"), ("scale", F+"vectorfield.py"), ("scale", F+"profile.py"), ("scale", F+"points.py")],
 ["coordinates, values, mask, units after the call"])
prop("C06", "Changing units preserves the physical quantity",
 "Changing the unit of an axis, of the values, of time or of point positions rescales the stored numbers so that number times unit is unchanged for every element, leaves every other attribute and the mask as they were, and ends with exactly the requested unit; an incompatible unit is rejected with the object unchanged. Changing back restores the original numbers.",
 ["inputs"], "all fields, profiles, point sets and time series; all compatible unit pairs with any conversion factor; all incompatible pairs",
 "tests convert one or two units on fixed objects",
 [F+"field.py", F+"scalarfield.py", F+"vectorfield.py", F+"profile.py", F+"points.py", F+"temporalfields.py"],
 [("change_unit", F+"field.py"), ("change_unit", F+"scalarfield.py"), ("change_unit", F+"vectorfield.py"), ("change_unit", F+"profile.py"), ("change_unit", F+"points.py")],
 ["number*unit of each element before and after"])
prop("C07", "Field arithmetic is pointwise, unit aware and mask aware",
 "Adding, subtracting, multiplying, dividing, negating, raising to a power or taking the absolute value of scalar or vector fields (with numbers, quantities, arrays or other fields on the same grid) gives at every node unmasked in all operands the physical result of the operation, converting units between operands, and masks every node masked in an operand (and division-by-zero nodes of a field or array divisor). Fields on partially overlapping grids are added on the common nodes only, and operands with incompatible units or grids are rejected.",
 ["inputs"], "all fields, scalars, quantities and arrays; all unit pairs; all masks",
 "tests compare a few sums with stored results, mostly in the same unit and with one mask",
 [F+"scalarfield.py", F+"vectorfield.py"],
 [("arithmetic operators", F+"scalarfield.py"), ("arithmetic operators", F+"vectorfield.py")],
 ["values, mask, unit of the result"])
prop("C08", "Operations that return a new object never touch their operands",
 "Operators, copies, queries, and transformations not asked to work in place leave every operand (values, axes, mask, units and any list or array passed in) exactly as it was. The returned object shares no data with them: later in-place changes to the result are not visible in the operands, and conversely.",
 ["inputs", "histories"], "all operations returning a new field, profile or point set, on all operands",
 "tests look at the result, hardly ever at the operands afterwards, and never mutate the result",
 [F+"field.py", F+"scalarfield.py", F+"vectorfield.py", F+"profile.py", F+"points.py"],
 [("copy()", F+"field.py"), ("inplace flag handling", F+"scalarfield.py")],
 ["operand snapshots before/after; memory shared between result and operands"])
prop("C09", "In-place and out-of-place forms of an operation agree",
 "Every transformation that offers an in-place form leaves the object in exactly the state (coordinates, values, mask, units) of the object returned by its out-of-place form with the same arguments; the out-of-place form always returns an object, and the two forms accept and reject the same arguments.",
 ["inputs"], "all transformations with an in-place flag on fields, profiles and point sets, all arguments",
 "each test exercises one form on one object",
 [F+"field.py", F+"scalarfield.py", F+"vectorfield.py", F+"profile.py", F+"points.py"],
 [("inplace parameter", F+"scalarfield.py"), ("inplace parameter", F+"vectorfield.py"), ("inplace parameter", F+"profile.py")],
 ["state after the in-place form versus returned object"])
prop("C10", "Position lookup, point values and profiles are correct at every position",
 "Looking up a coordinate on a field axis gives the exact index when it is a node, otherwise the two bracketing, the nearest, or the linearly interpolated fractional index; the value read at a node is that node's value, between nodes of a grid line it is the linear interpolation, and it is NaN when a needed node is masked. A profile extracted at a node or averaged over a position interval pairs each position with the value (or mean) of that row or column; positions outside the axes are rejected.",
 ["inputs"], "all strictly increasing axes (even or uneven), all positions",
 "tests query a few positions of one evenly spaced field",
 [F+"field.py", F+"scalarfield.py", F+"vectorfield.py"],
 [("get_indice_on_axe", F+"field.py"), ("get_value / get_profile", F+"scalarfield.py")],
 ["returned indices, values and profiles"])
prop("C11", "Statistics, fills and integrals use unmasked nodes only",
 "Minimum, maximum, mean, norms and integrals of a field depend only on unmasked nodes and equal their mathematical definition over them; magnitude and component views carry the field's mask. Filling replaces masked nodes (with the requested constant, or the nearest or interpolated unmasked values) and nothing else, leaves no masked node, and dropping masked borders removes exactly the outer rows and columns that are entirely masked.",
 ["inputs"], "all values and masks, including values hidden under the mask",
 "tests use one masked field and compare with stored numbers",
 [F+"scalarfield.py", F+"vectorfield.py"],
 [("min/max/mean/get_norm/fill/crop_masked_border", F+"scalarfield.py"), ("min/max/magnitude/fill", F+"vectorfield.py")],
 ["returned statistics; filled field"])
prop("C12", "Profiles keep positions sorted and paired with values and mask",
 "A profile built from any samples, and any profile obtained from it by point insertion or removal, cropping, filling, scaling, unit change or arithmetic, has positions in increasing order and as many positions as values and mask flags, each position still carrying the value and mask flag it was given. Profile arithmetic is pointwise with unit conversion and propagates masks, and value lookups interpolate between the bracketing samples.",
 ["inputs", "histories"], "all sample lists in any order, all masks, all operation arguments",
 "tests use one sorted profile",
 [F+"profile.py"],
 [("constructor sorting, add_point, remove_point, crop, operators", F+"profile.py")],
 ["x, y, mask, units of the profile"])
prop("C13", "Point sets keep every position paired with its own value",
 "Adding, removing, cutting, cropping, merging, scaling or re-basing a set of points keeps each remaining point's position together with its own value, in order; adding two sets converts the second into the first's units, cropping keeps exactly the points inside the closed window, sorting reorders whole points, velocity and evolution profiles are those of the points in the given order, and invalid requests leave the set unchanged. In a set of oriented points each point also keeps its own orientations under cutting, cropping, sorting, decomposition and merging.",
 ["inputs", "histories"], "all point sets with or without values, all arguments",
 "tests use one small set and compare with stored results",
 [F+"points.py"],
 [("add / remove / crop / cut / __add__ / change_unit / scale", F+"points.py")],
 ["xy, v, units"])
prop("C14", "Time series keep fields in time order, each with its own time",
 "A temporal set of fields holds its fields in increasing time, one time per field, whatever the insertion order and time units (times are converted to the set's time unit); fields whose axes or units differ from the set are rejected; removing, cropping and temporal slicing keep exactly the requested fields with their own times. Spatial operations on the set (cropping, scaling, rotating, unit change, coarsening, extension, mirroring, dropping of masked borders) act on every field.",
 ["histories", "inputs"], "all insertion orders and times, all fields on a common grid (number of time steps bounded as stated in the evidence)",
 "tests build one sequence in order",
 [F+"temporalfields.py", F+"temporalscalarfields.py", F+"temporalvectorfields.py"],
 [("add_field / remove_field / crop", F+"temporalfields.py")],
 ["times and fields of the set"])
prop("C15", "Temporal statistics honour masks and definitions at every node",
 "At every node the temporal mean is the average over the time steps where the node is unmasked, masked when it was unmasked fewer times than requested; temporal minimum and maximum are taken over unmasked steps; the fluctuating set is each field minus the mean field; turbulent kinetic energy and Reynolds stresses equal their definitions from the fluctuations; time profiles at a point return that point's values in time order; and filling a set in time or in space changes masked nodes only.",
 ["inputs"], "all values and masks at all nodes (number of time steps bounded as stated in the evidence)",
 "tests compare stored results for a set with one mask pattern",
 [F+"temporalfields.py", F+"temporalscalarfields.py", F+"temporalvectorfields.py"],
 [("get_mean_field / get_fluctuant_fields / get_min_field / get_max_field / get_tke", F+"temporalfields.py")],
 ["values and mask of the statistic fields"])
prop("C16", "Derivatives and vortex criteria match their definitions",
 "On an evenly spaced grid the gradients of a field are the central differences inside and the one-sided differences at the borders, with units value/length (exact for fields linear in space), masked exactly where a node of the difference stencil is masked. Where both axes have the same unit, divergence, vorticity (half the curl), its residual and shear parts, shear stress, Q = (||Omega||^2-||S||^2)/2, Nk = ||Omega||/||S||, delta, lambda2 and swirling strength equal their defining expressions of those gradients and, for Q, Nk, delta, lambda2 and swirling strength, are masked where a gradient is; gamma1, gamma2, kappa1 and kappa2 (default neighbourhood) equal the mean over the eight neighbours of the sine or cosine of the angle between position and (relative) velocity, and the angle deviation and the non-local residual vorticity their definitions over those neighbours, masked at the border and next to masked nodes; the Stokes vorticity is the circulation around each window over the area of window_size squared grid cells, masked when the window holds a masked node; adding a uniform velocity changes none of the derivative-based criteria; on a set of fields each field's own result is returned at its own time; the field given is not modified.",
 ["inputs"], "all velocity fields and spacings, all node positions including borders",
 "tests compare with stored output of the same code on one field",
 ["IMTreatment/field_treatment/field_treatment.py", "IMTreatment/vortex_criterions/vortex_criterions.py"],
 [("get_gradients, get_divergence, ...", "IMTreatment/field_treatment/field_treatment.py"), ("get_vorticity, get_qcriterion, ...", "IMTreatment/vortex_criterions/vortex_criterions.py")],
 ["values, mask, units of the criterion field"])
prop("C17", "Extending, mirroring and coarsening keep existing data in place",
 "Extending a field by given numbers of columns and rows (or lengths, rounded up to whole cells) prolongs the axes with the border spacing, keeps every original node's position, value and mask flag, and marks the new nodes masked (or gives them the requested value). Mirroring an evenly spaced field about a line on or outside its border keeps the original nodes and gives each added node the value found at its mirror position (vector components along the mirrored direction change sign, coefficients multiply), leaving the nodes without mirror image masked (or filled with the requested value); about a node inside the field the part beyond the line is dropped first. Reducing the resolution by an integer factor gives, for every complete block, the mean of the block's unmasked values at the block's central node (halfway between the two central nodes for even factors), masked when the whole block is masked, with units kept. The in-place forms do the same to the object itself; the others leave the field given unchanged.",
 ["inputs"], "all fields (evenly spaced for mirroring), all extension counts, all factors (coarsening factor bounded as stated in the evidence)",
 "tests use one extension and one even factor",
 [F+"field.py", F+"scalarfield.py", F+"vectorfield.py"],
 [("extend, reduce_spatial_resolution, mirroring", F+"scalarfield.py"), ("extend, reduce_spatial_resolution, mirroring", F+"vectorfield.py")],
 ["axes, values, mask, units of the result"])
prop("C18", "Synthetic vortex flows superpose and respect walls",
 "The velocity of a synthetic vortex (solid, free, Lamb-Oseen, Rankine, Burgers, node-like slice, Hill, Lamb-Chaplygin) at any point is its analytical profile around its centre: zero at the centre (Lamb-Chaplygin excepted), swirl sign given by the sign of its strength or its rotation direction, no radial part except where the model has one. A mirrored copy turns the other way with the same radial flow. The velocity of a system is the sum of the velocities of its vortices, of their mirror images in the walls (for several walls, images of the images too) and of its custom fields, whatever the order in which these were added and whether or not the system was evaluated in between; restricting to ids, listing the contributions, removing a vortex, using a vortex or field in two systems and advancing in time (each movable vortex moves by dt times the velocity at its centre, the system given is not changed) agree with that sum. Consequently the velocity through a wall vanishes on that wall (one wall, or two perpendicular ones; not for Lamb-Chaplygin dipoles). Fields generated on a grid hold that velocity at every node, in m/s.",
 ["inputs", "histories"], "all vortex positions, strengths, radii and viscosities, all evaluation points, wall positions and linear custom fields; at most 3 vortices, 3 walls and 2 custom fields; grids and time steps as listed in the evidence",
 "tests compare one generated field with a stored result",
 ["IMTreatment/vortex_creation/vortex_creation.py"],
 [("Vortex.get_vector / symetrize / get_vector_field and its subclasses; Wall; VortexSystem", "IMTreatment/vortex_creation/vortex_creation.py")],
 ["velocity vectors at arbitrary points, generated fields, vortex positions"])
prop("C19", "Saved objects load back identical",
 "Exporting any field, profile, point set or time series to a file and importing it again gives back an object equal in all coordinates, values, masks, units and times.",
 ["inputs"], "all objects, file names, compression settings",
 "tests save a handful of objects",
 ["IMTreatment/file_operation/file_operation.py"],
 [("export_to_file / import_from_file", "IMTreatment/file_operation/file_operation.py")],
 ["object loaded from the written file"])
prop("C20", "Boundary-layer quantities match their definitions",
 "For every velocity profile without masked samples that increases away from a wall at position 0: the boundary-layer thickness for a share p is the position where the linear interpolation of the profile reaches p times its maximum; the displacement and momentum thicknesses are the trapezoidal integrals of 1-u/U and u/U(1-u/U) over the samples up to 95 % of the maximum, U being the largest velocity retained, with the wall point (0, 0) added when the profile has no sample at the wall; the shape factor is their ratio wherever the momentum thickness is not zero; the Clauser thickness is the displacement thickness times the outer velocity over the friction velocity of the given wall stress, or of the shear stress at the first sample (velocities in m/s). The shear stress is density times viscosity times the velocity gradient at every sample (velocity over distance for the linear law), in the right unit whatever the units of the profile. On a scalar field these give one value per row or column, positioned on and with the unit of the axis swept. Blasius properties (thicknesses, friction coefficient, wall stress, Reynolds number; laminar and turbulent) follow their correlations at every position (turbulent from a Reynolds number of 5e5 on, or everywhere if asked) and vanish at the leading edge; wall-law and wake-law profiles take the value of the law of the layer each position lies in and refuse positions outside the flow. The profiles and fields given are never changed.",
 ["inputs"], "all strictly increasing profiles with values and positions in general position (sampled: not within rounding of the thresholds), sizes as listed in the evidence; uniform profiles of any size and units for the shear stress; Blasius and wall laws by sampling",
 "no existing test exercises the boundary layer module",
 ["IMTreatment/boundary_layer/boundary_layer.py"],
 [("get_bl_thickness / get_displ_thickness / get_momentum_thickness / get_shape_factor / get_clauser_thickness / get_shear_stress; BlasiusBL; WallLaw; WakeLaw", "IMTreatment/boundary_layer/boundary_layer.py")],
 ["numbers and profiles returned"])
prop("C21", "Potential flows respect their walls",
 "For every potential-flow system (free stream of any speed and angle, solids and open walls cut into panels): the panels follow the given outlines, closed for solids and open for walls, each segment cut into equal parts of about the shortest segment over the resolution; the velocity at any point off the panels is the free stream plus the velocity of the source panels, whose strengths are such that no fluid crosses the middle of any panel; on the middle of a panel the velocity is along the panel. This holds whatever the order in which objects were added and whether or not the flow was evaluated in between. Velocity fields on a grid and profiles along a line (towards increasing x and y) hold that velocity at every node or sample, in m and m/s, and are masked exactly inside the solids when asked; the pressure coefficient of a field or profile of velocities is 1 - |v|^2/u_inf^2 wherever the velocities are valid, masked elsewhere.",
 ["inputs", "histories"], "free streams not at rest; simple outlines; points at least 0.02 away from the panels or in the middle of one; velocities to a relative 2e-5 (numerical quadrature); pressure coefficients on all fields and profiles",
 "no existing test exercises the potential flow module",
 ["IMTreatment/potential_flow/potential_flow.py"],
 [("System / object_1D / object_2D / Panel / integral", "IMTreatment/potential_flow/potential_flow.py")],
 ["panels, velocities at points, fields, profiles, pressure coefficients"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")

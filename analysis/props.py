"""The properties: text (written to properties.jsonl by tools/mkmeta.py) and how
each one is decided (cone of reference functions, laws, structural rules)."""

ASSUMPTIONS = [
    "facts come from the MIR that rustc produces for the workspace with the feature set of build.sh (parallel), debug profile",
    "std, rayon, serde, rhai, rand, chrono, image/tobj/json5 and other dependencies behave as documented: calls into them are uninterpreted effects or modelled operators",
    "f64 arithmetic is compared as the arithmetic of the real numbers (regrouped sums and products are the same value); rounding differences are not seen, NaN only where the code tests for it",
    "implicit panics (index out of range, arithmetic overflow) are not part of the compared value flow",
    "the reference tree is the code as reviewed when this framework was written, with the fix: commits applied",
]

PROPS = {}
MATH = ("geometry", "matrix", "polynomial", "calendar", "schedule", "communication")


def P(pid, title, statement, over, text, why, files, mech, cone=None, close=(), floor=1, laws=(), rules=(), method="", project=None):
    PROPS[pid] = dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      cone=cone, close=close, floor=floor, laws=list(laws), rules=list(rules), method=method, project=project)


# --------------------------------------------------------------------------- calendar, weather, sun
P("C01", "Calendar arithmetic is exact on a 365-day year",
  "For every valid date and every non-negative amount of time, adding hours, minutes, seconds or days lands on the calendar instant that many units later on a 365-day year, wrapping from 31 December to 1 January. Comparing, interpolating and converting to and from day-of-year agree with that arithmetic, and iterating a period yields every step after its start, in order, never going past its end and never skipping or repeating one.",
  ["inputs", "histories"], "every date, amount of time, period and step size",
  "The tests sample a few dozen dates and offsets; a truncation or an off-by-one at one month boundary or one offset range stays invisible to them (the 8-bit truncation of offsets over 255 days did).",
  ["calendar/src/date.rs", "calendar/src/period.rs"],
  [("Date arithmetic", "calendar/src/date.rs: add_hours, add_days, day_of_year, from_day_of_year, interpolate"), ("Period iteration", "calendar/src/period.rs: Iterator::next")],
  cone=[("calendar", None, None)], close=(), floor=40, laws=[("calendar", "calendar", 14)])

P("C02", "Every EPW column reaches the weather quantity it stands for",
  "For every EPW file, each hourly record's comma-separated columns are stored in the quantity the EPW format assigns to that position, in the unit the library documents, in file order, and the header gives the location (latitude, longitude, time zone, elevation) and ground temperatures. A column that is missing, malformed or out of place is never attributed to another quantity, and conversion to hourly weather keeps every quantity.",
  ["inputs"], "every EPW file and every record and column in it",
  "The tests read two files and look at a few fields of a few rows; a swapped or rescaled column that no test reads is not noticed (the wind direction was wrong in every row).",
  ["weather/src/epw/scanner.rs", "weather/src/epw/weather.rs", "weather/src/epw/weather_line.rs", "weather/src/epw/ground_temperature.rs", "weather/src/location.rs", "weather/src/current_weather.rs"],
  [("column order", "weather/src/epw/scanner.rs: EPWScanner::parse_data"), ("record conversion", "weather/src/epw/weather_line.rs: From/Into CurrentWeather")],
  cone=[("weather", r"epw/", None), ("weather", r"location\.rs|current_weather\.rs", None), ("weather", r"weather/src/lib\.rs", r"Weather|from")], close=("weather", "calendar"), floor=55)

P("C03", "Weather at any instant interpolates its two neighbouring records",
  "For every weather series and every date, the weather reported is the record at that date or the linear interpolation, quantity by quantity, of the records immediately before and after it, wrapping from the last record of the year to the first. Interpolation weights lie between 0 and 1, so no quantity is ever extrapolated, and derived quantities (synthetic weather included) come from the same records.",
  ["inputs"], "every series, every date in the year, every quantity",
  "Tests check interior dates of one series; the year's wrap-around and quantities that no test reads are not exercised (dates after the last record were extrapolated a full year ahead).",
  ["weather/src/lib.rs", "weather/src/current_weather.rs", "weather/src/synthetic_weather.rs"],
  [("lookup", "weather/src/lib.rs: Weather::find_weather_line"), ("interpolation", "weather/src/current_weather.rs: CurrentWeather::interpolate"), ("synthetic", "weather/src/synthetic_weather.rs")],
  cone=[("weather", r"weather/src/lib\.rs|current_weather\.rs|synthetic_weather\.rs", None)], close=("weather", "calendar", "schedule"), floor=30)

P("C04", "Sun position and radiation split follow the solar formulas",
  "For every site, date and time convention (standard or solar), the sun direction, declination, equation of time, hour angle, sunrise and sunset, air mass and extraterrestrial radiation are those of the documented formulas, and no sun is reported when it is below the horizon. Splitting or estimating global, direct and diffuse radiation keeps them consistent: never negative diffuse, never non-finite direct.",
  ["inputs"], "every latitude, longitude, time zone, instant of the year and pair of irradiances",
  "Tests compare a handful of sites and days to tables; a wrong sign or unit in another hemisphere, season or branch stays inside their tolerance or is never reached.",
  ["weather/src/solar/mod.rs"],
  [("sun geometry", "weather/src/solar/mod.rs: Solar"), ("radiation split", "weather/src/solar/mod.rs: perez_direct_normal_radiation and callers")],
  cone=[("weather", r"solar/mod\.rs", None)], close=("weather", "calendar", "geometry"), floor=30)

P("C05", "The discretised sky carries the Perez distribution patch by patch",
  "For every sky condition, sun position and subdivision, each sky patch of the vector gets the Perez value in that patch's direction (plus its share of the sun where the sun is requested), the ground patch gets the reflected share, and nothing else: previous contents never leak into an updated vector. Every direction of the upper hemisphere belongs to exactly one patch and each patch's direction and size agree with the Reinhart subdivision, and dark or night conditions give zeros.",
  ["inputs", "histories"], "every instant, irradiance pair, subdivision factor, direction and previous content of the vector",
  "Tests check totals and a few patches for factor 1 on fresh vectors; misassigned patches elsewhere, or reuse of a vector, are not sampled.",
  ["weather/src/solar/perez.rs", "weather/src/solar/reinhart_sky.rs"],
  [("Perez model", "weather/src/solar/perez.rs: PerezSky"), ("subdivision", "weather/src/solar/reinhart_sky.rs: ReinhartSky")],
  cone=[("weather", r"solar/(perez|reinhart_sky)\.rs", None)], close=("weather", "calendar", "geometry", "matrix"), floor=26)

# --------------------------------------------------------------------------- model
P("C06", "Model elements keep their identity: index, name and references agree",
  "For every sequence of additions, each element is stored at the position its own index states, and looking an element up by name or position returns that element or an error naming what is missing. A reference from one element to another (surface to construction and boundary space, construction to materials, material to substance, equipment to space) is either resolved to an element of the model or reported, never silently attached to another one.",
  ["inputs", "histories"], "every order of additions, every name, every reference",
  "Tests add a few elements of each kind; mixed-up kinds, duplicated names or unresolved references in less common element types are not sampled.",
  ["model/src/model.rs", "model/src/boundary.rs", "model/src/building.rs", "model/src/space.rs", "model/src/surface.rs", "model/src/fenestration.rs"],
  [("additions", "model/src/model.rs: Model::add_*"), ("lookups", "model/src/model.rs: Model::get_*"), ("generated setters and getters", "derive/src")],
  cone=[("model", r"model/src/(model|boundary|building|space|surface|fenestration|construction|material|surface_trait|error_msgs|infiltration|luminaire|site_details|simulation_options)\.rs|substance/|hvac/", None), ("heat", r"heating_cooling\.rs|luminaire\.rs", r"::from")],
  close=("model",), floor=500)

P("C07", "Each state variable has one slot that only its owner reads and writes",
  "For every model, each dynamic quantity of each element (temperatures, irradiances, powers, opening fractions, occupancy...) is given one slot in the simulation state, starts at the value declared with it, and is read and written only through that slot: setting one quantity of one element changes no other, and reading it returns the last value set. A quantity that already has its slot cannot silently be given another, and the header, the values and the printed names stay in the same order.",
  ["histories", "inputs"], "every model, element and sequence of reads and writes",
  "Tests touch a few quantities of single-element models; a slot shared by two quantities or swapped only for one element type needs models they do not build.",
  ["model/src/simulation_state.rs", "model/src/simulation_state_element.rs", "model/src/space.rs", "model/src/surface.rs", "model/src/fenestration.rs", "derive/src/simulation_state_behaviour.rs"],
  [("state header", "model/src/simulation_state.rs: SimulationStateHeader"), ("element names and comparison", "model/src/simulation_state_element.rs"), ("generated accessors", "derive/src/simulation_state_behaviour.rs, derive/src/field.rs")],
  cone=[("model", r"simulation_state(_element)?\.rs", None), ("model", r"model/src/(space|surface|fenestration|luminaire|building|infiltration|surface_trait)\.rs|hvac/|objects/", None)], close=("model",), floor=250)

P("C08", "SPL text describes the model: nothing is dropped, added or misread",
  "For every SPL file, every object in it becomes exactly one element of the named kind, with each field as written, regardless of the order of the objects in the file; anything that cannot be understood (unknown object kind, malformed object, missing reference) is an error with its line, not a smaller model. Writing a model as SPL writes every element it contains, so that reading it back gives the same elements.",
  ["inputs"], "every SPL text and every model",
  "Tests parse one small file per element kind; combinations, ordering, comments and unknown kinds are open-ended (unknown kinds were silently ignored, and solar options were never written).",
  ["model/src/scanner.rs", "model/src/model.rs", "derive/src/lib.rs"],
  [("scanner", "model/src/scanner.rs: SimpleScanner"), ("writer", "model/src/model.rs: Display for Model; generated Display for each element")],
  cone=[("model", r"scanner\.rs", None), ("model", r"model/src/model\.rs", None), ("model", None, r"Display>|Serialize>|Deserialize|Visitor")], close=("model",), floor=200)

P("C09", "JSON input and output preserve the model",
  "For every model, writing it as JSON and reading it back gives a model with the same elements and the same values for every field, optional fields included; unknown fields are rejected and required ones demanded. Reading a model from JSON and from the equivalent SPL text gives the same model and the same simulation state.",
  ["inputs"], "every model and every JSON document",
  "Round trips are tested for a few documents; a field skipped, renamed or defaulted for one element type is lost only in documents that use it.",
  ["model/src/model.rs", "model/src/objects/mod.rs", "model/src/hvac/mod.rs", "model/src/substance/mod.rs"],
  [("document reader", "model/src/model.rs: Deserialize for Model"), ("element (de)serialisers", "generated by serde for every element")],
  cone=[("model", None, r"Serialize>|Deserialize|Visitor|^Model::|serde|from_|json")], close=("model",), floor=200)

# --------------------------------------------------------------------------- simulation driver
P("C10", "A run reports every step of the weather period, in order, fully written",
  "For every model, weather file and number of steps per hour, a run prints one header and then one row per time step from the first to the last weather record, dated in order, each row holding the reported state values after that step in the order of the header (all state when no outputs are requested). An invalid option or file is an error, never a partial success, and the control is applied once before each step, whether or not a control script is used.",
  ["inputs", "histories", "configurations"], "every model, weather file, option set, output selection and writer",
  "Tests run two or three small models and inspect numbers, not the driver's bookkeeping over whole runs, partial selections or short writes.",
  ["src/run_simulation.rs", "src/control_trait.rs", "src/void_control.rs", "bin/simple.rs"],
  [("driver", "src/run_simulation.rs: pre_process, run, run_rhai"), ("program", "bin/simple.rs")],
  cone=[("simple", r"src/(run_simulation|void_control|occupant_behaviour|rhai_script_controller)\.rs", None), ("simple-bin", None, None), ("model", r"simulation_state(_element)?\.rs", None), ("weather", r"weather/src/lib\.rs", None)], close=("simple", "simple-bin", "calendar"), floor=20)

P("C11", "Physics advance together: same sub-step, right order, shared state",
  "For every model and step size, each time step advances the solar, air and thermal models in that dependency order by the same simulated time, using the weather of that instant, on one shared state, and any model's failure stops the step with its error. Each physics model receives its own options and memory, and the number of sub-steps chosen covers the whole step exactly.",
  ["histories", "configurations"], "every model, date, step size and failure",
  "Tests run integrated examples where a reordered or repeated sub-model changes results slightly or not at all.",
  ["src/multiphysics_model.rs", "communication/src/lib.rs"],
  [("ordering", "src/multiphysics_model.rs: SimulationModel for MultiphysicsModel"), ("interface", "communication/src/lib.rs")],
  cone=[("simple", r"multiphysics_model\.rs", None), ("communication", None, None), ("simple", r"src/run_simulation\.rs", None), ("heat", r"heat_model\.rs", r"SimulationModel"), ("air", r"air_model\.rs", r"SimulationModel"), ("light", r"solar_model\.rs", r"SimulationModel")], close=("simple", "communication"), floor=6)

# --------------------------------------------------------------------------- numerics
P("C12", "Matrix operations implement linear algebra, in every form of the operation",
  "For all matrices of compatible sizes, addition, subtraction, scaling, products, element access and updates, identity and n-diagonal forms give the mathematical result, and the in-place, into-buffer, by-reference and operator forms of one operation agree with one another. Sizes that do not match are rejected, solving a system leaves a vector that satisfies it as documented, and every element outside the stored band of an n-diagonal matrix is zero.",
  ["inputs"], "all sizes, bands and contents",
  "Tests use small fixed matrices; an index error in one form of one operation at another shape is not reached.",
  ["matrix/src/generic_matrix.rs", "matrix/src/n_diag_generic_matrix.rs", "matrix/src/matrix.rs", "matrix/src/n_diag_matrix.rs", "matrix/src/traits.rs"],
  [("dense", "matrix/src/generic_matrix.rs"), ("n-diagonal", "matrix/src/n_diag_generic_matrix.rs"), ("solvers", "matrix/src/matrix.rs")],
  cone=[("matrix", None, None)], close=(), floor=80)

P("C13", "Points, vectors, segments, rays and planes obey vector algebra",
  "For all finite inputs, vector and point arithmetic, dot and cross products, lengths, normalisation, perpendiculars, distances, projections, parallelism and same-direction tests, segment and plane intersections and containment give the result of Euclidean geometry within the documented tolerance. Owned, borrowed and in-place operator forms agree.",
  ["inputs"], "all finite coordinates",
  "Tests use axis-aligned or small examples in which swapped components or missing terms often cancel.",
  ["geometry/src/vector3d.rs", "geometry/src/point3d.rs", "geometry/src/segment3d.rs", "geometry/src/ray3d.rs", "geometry/src/plane3d.rs", "geometry/src/utils.rs"],
  [("vectors and points", "geometry/src/vector3d.rs, point3d.rs"), ("segments, rays, planes", "geometry/src/segment3d.rs, ray3d.rs, plane3d.rs")],
  cone=[("geometry", r"src/(vector3d|point3d|segment3d|ray3d|plane3d|utils)\.rs", None)], close=("geometry",), floor=100)

P("C14", "A transform and its inverse undo each other on every kind of geometry",
  "For every composition of translations, rotations, scalings and reflections, applying the transform and then its inverse returns the original point, vector, normal, ray or box, and composing transforms equals applying them one after the other, with rotations in the documented sense. Error bounds carried along are never smaller than the rounding they stand for, and transformed boxes enclose the transformed contents.",
  ["inputs", "histories"], "all transforms and compositions, all geometry",
  "Tests check single transforms, mostly in one direction; the inverse of a composition was wrong and untested.",
  ["geometry/src/transform.rs", "geometry/src/round_error.rs", "geometry/src/bbox3d.rs"],
  [("transforms", "geometry/src/transform.rs"), ("round-off", "geometry/src/round_error.rs"), ("boxes", "geometry/src/bbox3d.rs")],
  cone=[("geometry", r"src/(transform|round_error|bbox3d)\.rs", None), ("geometry", None, r"transform")], close=("geometry",), floor=75)

P("C15", "Loops and polygons keep their shape: area, normal, containment, holes",
  "For every sequence of coplanar vertices, a closed loop keeps the area, perimeter, centroid, plane and orientation of those vertices (redundant collinear ones removed), rejects self-intersecting or non-coplanar additions, and answers containment and diagonal tests according to the polygon's interior. Cutting holes removes exactly the hole's area, an opening that is not inside its parent is rejected, and splitting or intersecting loops never creates area that was not in the inputs.",
  ["inputs", "histories"], "all vertex sequences, holes and points",
  "Tests use a few convex and L-shaped examples on axis planes.",
  ["geometry/src/loop3d.rs", "geometry/src/polygon3d.rs"],
  [("loops", "geometry/src/loop3d.rs: Loop3D"), ("polygons", "geometry/src/polygon3d.rs: Polygon3D")],
  cone=[("geometry", r"src/(loop3d|polygon3d)\.rs", None)], close=("geometry",), floor=70)

P("C16", "Ray-shape intersection reports the nearest true hit and its surface data",
  "For every ray and every sphere, cylinder, disk, triangle, plane or distant source, under any placement, an intersection is reported exactly when the ray meets the visible part of the shape ahead of its origin, at the nearest such point, with the outward normal, side and surface derivatives of the shape there. The simple and the detailed forms of the query agree, and the bounding box of a shape contains all of it.",
  ["inputs"], "all rays, shapes and placements",
  "Tests fire a few axis-aligned rays at unit shapes; grazing, inside-out, clipped and transformed cases are sampled sparsely.",
  ["geometry/src/sphere3d.rs", "geometry/src/cylinder3d.rs", "geometry/src/disk3d.rs", "geometry/src/triangle3d.rs", "geometry/src/distant_source3d.rs", "geometry/src/intersection.rs", "geometry/src/plane3d.rs", "geometry/src/bbox3d.rs"],
  [("shapes", "geometry/src/{sphere3d,cylinder3d,disk3d,triangle3d,distant_source3d}.rs"), ("surface data", "geometry/src/intersection.rs")],
  cone=[("geometry", r"src/(sphere3d|cylinder3d|disk3d|triangle3d|distant_source3d|intersection|plane3d|bbox3d|ray3d)\.rs", None)], close=("geometry",), floor=120)

P("C17", "Triangulation covers the polygon and nothing else, consistently linked",
  "For every polygon with holes, triangulating it gives triangles that cover its area without overlaps or gaps, and refining the mesh only splits or flips triangles. At every point of a refinement, neighbouring triangles name each other across the same edge, invalid triangles are never handed out, and constrained edges are kept.",
  ["inputs", "histories"], "all polygons, refinement parameters and refinement histories",
  "Tests triangulate a few shapes and check totals; inconsistent links show up only in later refinements.",
  ["geometry/src/triangulation3d.rs", "geometry/src/triangle3d.rs"],
  [("mesh", "geometry/src/triangulation3d.rs: Triangulation3D"), ("triangles", "geometry/src/triangle3d.rs")],
  cone=[("geometry", r"src/(triangulation3d|triangle3d)\.rs", None)], close=("geometry",), floor=80)

# --------------------------------------------------------------------------- heat
P("C18", "Walls are discretised without losing mass, resistance or stability",
  "For every construction, the nodes into which a wall is divided carry exactly the thermal mass and resistance of its layers, in layer order, with cavities and massless layers as pure resistances, and the number of sub-steps keeps the marching scheme within its stability limit. The conductance matrix built from them conserves energy between nodes and takes the boundary terms only at the outer nodes.",
  ["inputs"], "every construction, layer order, thickness, step size and temperature state",
  "Tests cover a few textbook walls; layer sequences mixing cavities, massless and massive layers are combinatorial.",
  ["heat/src/discretization.rs"],
  [("segments and sub-steps", "heat/src/discretization.rs: Discretization::new, discretize_construction"), ("matrices", "heat/src/discretization.rs: get_k_q and callers")],
  cone=[("heat", r"discretization\.rs", None), ("heat", r"heat_model\.rs", r"::new"), ("heat", r"heat/src/surface\.rs", r"::new|march|rearrange")], close=("heat", "matrix", "model",), floor=14)

P("C19", "Convection coefficients follow the documented correlations in every regime",
  "For every combination of air and surface temperature, wind, roughness, tilt, area and perimeter, the convection coefficient is the one the documented correlation gives for that regime (stable, unstable, vertical, windward, leeward), positive, and zero-difference cases are well defined. Film and forced components combine as documented.",
  ["inputs"], "all environments and regimes",
  "Tests evaluate a few points, not each side of every regime boundary.",
  ["heat/src/convection.rs"],
  [("correlations", "heat/src/convection.rs: ConvectionParams")],
  cone=[("heat", r"convection\.rs", None), ("heat", r"heat/src/surface\.rs", r"conv|border|wind|calc|march")], close=("heat",), floor=4)

P("C20", "Gas properties and cavity heat transfer follow the documented equations",
  "For every gas, temperature, pressure-free mixture and cavity geometry, density, viscosity, conductivity and specific heat are those of the gas's published polynomials at the absolute temperature, and the cavity's convective and radiative exchange follow the equations for its tilt range and Rayleigh number without gaps between ranges. The heat flow is symmetric under exchanging the two sides where the equations are.",
  ["inputs"], "all gases, temperatures, tilts and Rayleigh numbers",
  "Tests check published values at a few temperatures and tilts (exactly Ra = 50000 panicked).",
  ["heat/src/gas.rs", "heat/src/cavity.rs", "polynomial/src/lib.rs"],
  [("gases", "heat/src/gas.rs"), ("cavities", "heat/src/cavity.rs"), ("polynomials", "polynomial/src/lib.rs")],
  cone=[("heat", r"(gas|cavity)\.rs", None), ("polynomial", None, None), ("heat", r"discretization\.rs", None)], close=("heat",), floor=18)

P("C21", "Glazing optics conserve light: absorbed + reflected + transmitted = 1",
  "For every stack of glazing layers, the combined transmittance, reflectance and the share absorbed by each layer account for all incident radiation, from the front and from the back, with each layer's own front and back properties on the right side. Opaque and single-layer cases are the special cases of the same rule.",
  ["inputs"], "every stack and layer properties",
  "Tests check two or three layer stacks from one side.",
  ["heat/src/glazing.rs"],
  [("layers", "heat/src/glazing.rs: Glazing")],
  cone=[("heat", r"glazing\.rs", None), ("heat", r"heat/src/(surface|discretization)\.rs", None), ("model", r"substance/normal\.rs", None)], close=("heat", "model"), floor=17)

P("C22", "Surface marching uses each side's own environment and keeps energy",
  "For every wall or window and every time step, node temperatures change only through conduction between neighbouring nodes, absorbed solar radiation, and convection and long-wave exchange with the environment of the side each node faces. Front and back use their own boundary, temperatures, coefficients and irradiance, the reported surface temperatures, convection coefficients and heat flows are those used in the step, and unphysical irradiance is ignored on both sides alike.",
  ["inputs", "histories"], "every construction, boundary pair, environment and step",
  "Tests compare a few walls to analytic cases, nearly always with one kind of boundary on each side (the back side ignored its own sign test and temperature in two places).",
  ["heat/src/surface.rs", "heat/src/heat_model.rs"],
  [("marching", "heat/src/surface.rs: ThermalSurfaceData::march, march_mass, march_nomass"), ("border conditions", "heat/src/surface.rs: calc_border_conditions")],
  cone=[("heat", r"heat/src/(surface|discretization)\.rs", None), ("heat", r"heat_model\.rs", None)], close=("heat", "matrix", "model"), floor=35)

P("C23", "Every zone's air balance counts each gain and loss exactly once",
  "For every model and time step, the air of each space is advanced with the sum over exactly its own surfaces, windows, infiltration, ventilation, equipment and luminaires, each counted once with the right sign and the properties of the right side. The future temperature is the exact solution of that balance over the step, spaces do not affect one another except through shared elements, and surfaces facing a space read that space's temperature.",
  ["inputs", "histories"], "every model, step and state",
  "Tests use single-zone examples; a gain attributed to the wrong zone or counted twice needs several zones and element kinds.",
  ["heat/src/heat_model.rs", "heat/src/zone.rs", "heat/src/heating_cooling.rs", "heat/src/luminaire.rs"],
  [("balance", "heat/src/heat_model.rs: calculate_zones_abc, march"), ("gains", "heat/src/heating_cooling.rs, luminaire.rs"), ("zones", "heat/src/zone.rs")],
  cone=[("heat", r"heat/src/(heat_model|zone|heating_cooling|luminaire)\.rs", None)], close=("heat", "model", "matrix"), floor=20)

P("C24", "Heating, cooling and lighting deliver what their state says, where they belong",
  "For every heater, cooler and luminaire and every state, the heat it delivers during a step is the power its own state variable holds at that time, with that sign, delivered once and only to the space it is assigned to; a missing target space or missing state is an error. Setpoints and maximum powers read back by control scripts are those of that same piece of equipment.",
  ["inputs", "histories"], "every equipment, setpoint, limit and state",
  "Tests exercise one heater in one space.",
  ["heat/src/heating_cooling.rs", "heat/src/luminaire.rs", "model/src/hvac/mod.rs", "model/src/hvac/ideal_heater_cooler.rs", "model/src/hvac/electric_heater.rs", "model/src/luminaire.rs"],
  [("delivered power", "heat/src/heating_cooling.rs, heat/src/luminaire.rs"), ("equipment", "model/src/hvac")],
  cone=[("heat", r"heat/src/(heating_cooling|luminaire)\.rs", None), ("model", r"hvac/|luminaire\.rs", None), ("heat", r"heat_model\.rs", None)], close=("heat", "model"), floor=120)

P("C25", "Infiltration follows the design the user chose, in the right units",
  "For every space and infiltration specification (constant, Blast, DOE-2, design flow or effective leakage area), the air flow each time step is the one that specification's formula gives for the current wind speed and inside-outside temperature difference, with the stack and wind coefficients resolved from the building's storeys and shelter class, and the incoming air has the outdoor temperature. Spaces without infiltration get none, and missing data needed by the formula is an error naming it.",
  ["inputs"], "every specification, building class, weather and state",
  "Tests check a few specifications against one formula value.",
  ["air/src/air_model.rs", "air/src/eplus.rs", "air/src/resolvers.rs", "model/src/infiltration.rs"],
  [("formulas", "air/src/eplus.rs"), ("coefficients", "air/src/resolvers.rs"), ("marching", "air/src/air_model.rs")],
  cone=[("air", None, None)], close=("air", "model", "weather"), floor=15)

# --------------------------------------------------------------------------- light and rendering
P("C26", "Solar and long-wave irradiance on surfaces follow sky, view and weather",
  "For every model and time step, each side of each exterior surface and window receives the solar irradiance of the current sky on that side (never negative), zero at night, and the long-wave irradiance of sky, air and ground weighted by that side's view factors. View factors count each sampled direction as sky, ground or obstructed according to that direction, interior sides get their space's exchange, and results are stored for the surface they were computed for.",
  ["inputs", "histories"], "every geometry, obstruction, weather and time",
  "Tests use an isolated surface; obstructions and several surfaces were not checked (each sample tested the surface normal instead of its own direction).",
  ["light/src/solar_model.rs", "light/src/solar_surface.rs"],
  [("irradiance", "light/src/solar_model.rs: SolarModel"), ("view factors", "light/src/solar_surface.rs: SolarSurface")],
  cone=[("light", r"solar_(model|surface)\.rs", None), ("light", r"optical_info\.rs", None), ("heat", r"heat/src/surface\.rs", r"border|ir|solar|march|calc")], close=("light", "model", "matrix", "geometry", "weather"), floor=16)

P("C27", "Stored optical data describe the same model in the same order",
  "For every model, the view factors and daylight-coefficient matrices are computed for every surface and window, front and back, stored under the element they belong to, and writing them to a file and reading them back gives the same data; data read from a file that does not fit the model is an error. Recomputing is only skipped when a file was given.",
  ["inputs", "configurations"], "every model and stored file",
  "Tests compare one model's data with one stored file.",
  ["light/src/optical_info.rs"],
  [("optical info", "light/src/optical_info.rs: OpticalInfo")],
  cone=[("light", r"optical_info\.rs", None), ("light", r"solar_(model|surface)\.rs", None)], close=("light", "matrix"), floor=25)

P("C28", "Materials scatter light according to their documented model",
  "For every material, incoming and outgoing direction and side, the value, sampling and probability of its scattering function belong to one and the same model: sampled directions leave on the side the model says, the reported probability is the density of that sampling, colours multiply in the right place, and no material returns more light than it receives. Mirror and refraction directions obey reflection and Snell's law, and emitters emit their own colour.",
  ["inputs"], "all materials, parameters, directions and random numbers",
  "Tests check energy for a few materials by sampling; a wrong density or side in one lobe stays within noise.",
  ["rendering/src/material/mod.rs", "rendering/src/material/mat_trait.rs", "rendering/src/material/dielectric.rs", "rendering/src/material/glass.rs", "rendering/src/material/specular.rs", "rendering/src/material/ward.rs", "rendering/src/material/diffuse.rs", "rendering/src/material/metal.rs", "rendering/src/material/plastic.rs", "rendering/src/material/mirror.rs", "rendering/src/material/light.rs", "rendering/src/material/bsdf_sample.rs", "rendering/src/material/local_coordinates_utils.rs"],
  [("materials", "rendering/src/material")],
  cone=[("rendering", r"src/material/", None)], close=("rendering", "geometry"), floor=110)

P("C29", "The accelerated scene finds the same nearest hit as testing every object",
  "For every scene and ray, casting through the bounding-volume hierarchy returns the nearest object that the ray hits, or none exactly when no object is hit within range, and the obstruction query agrees with it. Every object of the scene is in exactly one leaf, each node's box encloses its contents, and materials, normals and objects stay paired when objects are reordered.",
  ["inputs"], "all scenes and rays",
  "Tests cast random rays at a few scenes; a pruned subtree or a swapped pairing needs particular layouts.",
  ["rendering/src/bvh.rs", "rendering/src/triangle/mod.rs", "rendering/src/triangle/fallback.rs", "rendering/src/scene.rs", "rendering/src/primitive.rs"],
  [("hierarchy", "rendering/src/bvh.rs"), ("leaf tests", "rendering/src/triangle"), ("scene", "rendering/src/scene.rs")],
  cone=[("rendering", r"src/(bvh|scene|primitive|interaction)\.rs|src/triangle/", None)], close=("rendering", "geometry"), floor=55)

P("C30", "Ray tracing gathers light along paths without losing or inventing energy",
  "For every scene, camera and set of parameters, each pixel's value is the average over its samples of direct light from each light source, sky light and indirect light, weighted by the material's scattering, cosine and sampling probabilities, with depth and weight limits as configured. Occluded lights contribute nothing, every pixel is computed once for its own primary ray, and serial and parallel rendering write the same pixels.",
  ["inputs", "schedules", "configurations"], "all scenes, cameras, parameters and thread schedules",
  "Tests compare a few noisy images with wide tolerances.",
  ["rendering/src/ray_tracer.rs", "rendering/src/camera/pinhole.rs", "rendering/src/camera/view.rs", "rendering/src/camera/film.rs", "rendering/src/scene.rs", "rendering/src/lights.rs", "rendering/src/ray.rs"],
  [("tracer", "rendering/src/ray_tracer.rs: RayTracer"), ("camera", "rendering/src/camera"), ("lights", "rendering/src/scene.rs, primitive.rs")],
  cone=[("rendering", r"src/(ray_tracer|scene|primitive|interaction|ray|lights)\.rs|src/camera/", None)], close=("rendering", "geometry"), floor=50)

P("C31", "Daylight coefficients accumulate each path's light in its own sky patch",
  "For every scene, set of rays and subdivision, the coefficient matrix has one row per requested ray and one column per sky patch, and each traced path adds its weighted contribution to exactly the patch its final direction falls in, averaged over the samples. Results do not depend on how rays are distributed among threads.",
  ["inputs", "schedules"], "all scenes, rays, subdivisions and thread schedules",
  "Tests check one ray under a uniform sky, where a contribution in the wrong patch does not change the sum.",
  ["rendering/src/daylight_coefficients.rs", "bin/sfluxmtx.rs", "weather/src/solar/reinhart_sky.rs"],
  [("coefficients", "rendering/src/daylight_coefficients.rs: DCFactory"), ("program", "bin/sfluxmtx.rs")],
  cone=[("rendering", r"daylight_coefficients\.rs|colour_matrix\.rs", None), ("sfluxmtx-bin", None, None), ("weather", r"reinhart_sky\.rs", None)], close=("rendering", "sfluxmtx-bin", "matrix", "weather"), floor=30)

P("C32", "Images, colours and matrices survive their file formats and colour maps",
  "For every image, saving it as a Radiance picture and loading it back keeps size, orientation and each pixel within the format's precision; colour-coefficient matrices keep their dimensions and values through their files; malformed files are errors. False-colour images map each luminance to the colour-map entry of its position between minimum and maximum, clamped at both ends, and image difference and luminance are computed pixel by pixel with the documented weights.",
  ["inputs"], "all images, matrices, files and scales",
  "Tests round-trip a few images; scale limits, one colour channel or run-length cases are not sampled.",
  ["rendering/src/image.rs", "rendering/src/colour.rs", "rendering/src/colour_matrix.rs", "rendering/src/colourmap/mod.rs", "bin/sfalsecolor.rs", "bin/scompare.rs"],
  [("images", "rendering/src/image.rs"), ("colour matrices", "rendering/src/colour_matrix.rs"), ("colour maps", "rendering/src/colourmap")],
  cone=[("rendering", r"src/(image|colour|colour_matrix)\.rs|src/colourmap/", None), ("sfalsecolor-bin", None, None), ("scompare-bin", None, None)], close=("rendering", "sfalsecolor-bin", "scompare-bin", "matrix"), floor=90)

P("C33", "Random samplers map uniform numbers into the region they promise",
  "For every pair of uniform random numbers, each sampler returns a point or direction inside the region it is named after (triangle, disk, sphere, hemisphere around the given normal, light source seen from a point), following the documented mapping so that the density is the documented one. Reported probabilities and solid angles are those of the same mapping.",
  ["inputs"], "all random numbers, regions and orientations",
  "Tests check that samples lie in the region; the density of the mapping is not checked.",
  ["rendering/src/samplers.rs", "rendering/src/primitive_samplers.rs", "rendering/src/primitive.rs", "rendering/src/rand.rs"],
  [("samplers", "rendering/src/samplers.rs"), ("light sampling", "rendering/src/primitive_samplers.rs")],
  cone=[("rendering", r"src/(samplers|primitive_samplers|primitive|rand)\.rs", None), ("rendering", r"src/lights\.rs", None)], close=("rendering", "geometry"), floor=27)

P("C34", "Scene importers bring over every object, material and view as written",
  "For every Radiance, Wavefront or SIMPLE model, each supported object becomes one object of the scene with its geometry, its front and back materials and its parameters in the documented positions, windows and walls are placed in the order and frame of the model, and unsupported or malformed input is an error or explicitly skipped as documented. Reflectance, transmittance and colours are carried with the meaning they had in the source.",
  ["inputs"], "all importable files and models",
  "Tests import a few files; positions of rarely used parameters are not read back (a substance's visible reflectance was used as its absorptance).",
  ["rendering/src/from_radiance.rs", "rendering/src/from_obj.rs", "rendering/src/from_simple_model.rs", "rendering/src/scene.rs"],
  [("Radiance", "rendering/src/from_radiance.rs"), ("Wavefront", "rendering/src/from_obj.rs"), ("SIMPLE", "rendering/src/from_simple_model.rs")],
  cone=[("rendering", r"src/(from_radiance|from_obj|from_simple_model|scene)\.rs|src/camera/view\.rs", None), ("spict-bin", None, None)], close=("rendering", "geometry", "spict-bin",), floor=45)

P("C35", "Control scripts see and change exactly the element they address",
  "For every control script, the element it addresses by name or position is the one it reads from and writes to, quantities that are read-only cannot be assigned, a failing script stops the run with its error, and the script runs once per time step on the current state. Occupant behaviour and the no-control case leave the state untouched where they promise to.",
  ["programs", "histories"], "all scripts, models and states",
  "Tests run a few scripts; every exposed quantity of every element kind would need its own.",
  ["src/rhai_script_controller.rs", "model/src/rhai_api.rs", "derive/src/object_struct.rs", "derive/src/field.rs", "src/occupant_behaviour.rs"],
  [("controller", "src/rhai_script_controller.rs"), ("exposed accessors", "generated by derive/src, registered in model/src/rhai_api.rs")],
  cone=[("simple", r"src/(rhai_script_controller|occupant_behaviour|void_control)\.rs", None), ("model", None, r"rhai|register|api"), ("simple", r"src/run_simulation\.rs", None), ("simple-bin", None, None)], close=("simple", "model", "simple-bin",), floor=15)

P("C36", "The command line tools do what their options say and fail loudly",
  "For every command line, each program passes every option to the part of the calculation it names, reads and writes the files it was given, and ends with a non-zero status and a message when anything fails. No program reports success after an error.",
  ["configurations", "inputs"], "all option combinations, files and failures",
  "No test runs the programs; options crossing over or errors turned into success are not noticed.",
  ["bin/simple.rs", "bin/spict.rs", "bin/sfluxmtx.rs", "bin/sfalsecolor.rs", "bin/scompare.rs"],
  [("programs", "bin/*.rs")],
  cone=[("simple-bin", None, None), ("spict-bin", None, None), ("sfluxmtx-bin", None, None), ("sfalsecolor-bin", None, None), ("scompare-bin", None, None), ("simple", r"src/run_simulation\.rs", r"SimOptions"), ("simple", r"src/", None)], close=("simple-bin", "spict-bin", "sfluxmtx-bin", "sfalsecolor-bin", "scompare-bin", "simple",), floor=60)

# --------------------------------------------------------------------------- whole-system rules
P("C37", "The same model and weather always give the same thermal results",
  "For every model, weather and option set, repeating a thermal or air-flow simulation gives bit-for-bit the same values: nothing on the path of a time step depends on random numbers, clocks, environment variables, memory addresses, the iteration order of hashed collections, thread scheduling or state left by an earlier run. The optical preprocessing and the renderer are the only parts allowed to draw random numbers.",
  ["schedules", "histories"], "all models, runs and thread schedules",
  "A test sees one run; nondeterminism needs many runs on many machines to show.",
  ["heat/src/heat_model.rs", "air/src/air_model.rs", "src/multiphysics_model.rs", "light/src/solar_model.rs", "src/run_simulation.rs"],
  [("time step", "SimulationModel::march of each physics model")],
  rules=["determinism"])

P("C38", "Safe Rust throughout: no undefined behaviour, no hidden global state",
  "No input can cause undefined behaviour or a data race: the libraries and programs contain no unsafe code, foreign functions or mutable global variables beyond the one documented bit-level square root, which is not part of the default build. Sharing data between threads therefore always goes through types the compiler checks.",
  ["inputs", "schedules"], "all inputs and thread schedules",
  "Tests cannot show the absence of undefined behaviour; one unchecked access is enough and may behave well under test.",
  ["geometry/src/quick_inverse_sqrt.rs", "rendering/src", "heat/src", "model/src"],
  [("absence of unsafe", "whole workspace")],
  rules=["no_unsafe"])

P("C39", "Errors reach the caller: no failure is swallowed or turned into a value",
  "For every operation that can fail, the failure is returned or reported to the caller; it is never silently discarded, replaced by a default or turned into a partial result, except at the sites where a default is documented. A simulation whose step fails stops with that error.",
  ["fault_sequences", "inputs"], "all failures at all call sites",
  "Tests hardly provoke failures; a dropped result is invisible as long as the call succeeds.",
  ["src/run_simulation.rs", "src/multiphysics_model.rs", "heat/src", "light/src", "air/src", "model/src", "rendering/src", "weather/src", "geometry/src"],
  [("error propagation", "Result-returning functions of the whole workspace")],
  cone=[(c, None, None) for c in ("air", "calendar", "communication", "geometry", "heat", "light", "matrix", "model", "rendering", "schedule", "simple", "weather", "simple-bin", "spict-bin", "sfluxmtx-bin", "sfalsecolor-bin", "scompare-bin")],
  floor=2000, rules=["errors"], project="errcase")

P("C40", "Schedules and synthetic series return the value in force at the instant",
  "For every schedule and instant, the value returned is the one the schedule defines for that instant (constant schedules always their value, empty schedules none), and a synthetic weather built from schedules reports for each quantity its own schedule's value at the requested date, or the documented absence.",
  ["inputs"], "all schedules and instants",
  "Tests query one schedule of each kind and some of the quantities.",
  ["schedule/src/constant.rs", "schedule/src/empty_schedule.rs", "weather/src/synthetic_weather.rs"],
  [("schedules", "schedule/src"), ("synthetic weather", "weather/src/synthetic_weather.rs")],
  cone=[("schedule", None, None), ("weather", r"synthetic_weather\.rs", None)], close=("schedule",), floor=4)

NA = []


def N(pid, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason))


N("N01", "Thermal results stay close to the physical solution at every step size",
  "For every model and step size, simulated temperatures converge to the solution of the heat equations as the step shrinks and stay within a stated error of it.",
  ["inputs", "configurations"], "all models, weather and step sizes", "Tests compare a few cases with EnergyPlus within tolerances.",
  ["heat/src/heat_model.rs"], [("marching scheme", "heat/src/surface.rs, heat/src/heat_model.rs")],
  "The error of a time-marching scheme is a bound on runtime floating-point quantities over all models; no static argument in reach bounds it. C18-C23 decide the scheme's equations instead.")
N("N02", "Rendered images and daylight coefficients converge without bias",
  "For every scene, the expected value of each rendered pixel and daylight coefficient is the true one, and its spread shrinks with the number of samples.",
  ["inputs"], "all scenes and sample counts", "Tests compare noisy averages with wide tolerances.",
  ["rendering/src/ray_tracer.rs"], [("estimators", "rendering/src/ray_tracer.rs, daylight_coefficients.rs")],
  "Unbiasedness and variance quantify over integrals of runtime random quantities; static analysis cannot evaluate them. C28-C33 decide the estimator's terms instead.")
N("N03", "Every simulation and rendering ends, in time proportional to its input",
  "For every valid input, simulations, mesh refinements and renderings end, and their cost grows as documented with the size of the model and the number of samples.",
  ["inputs"], "all inputs", "Tests run small inputs only.",
  ["geometry/src/triangulation3d.rs", "rendering/src/ray_tracer.rs", "heat/src/surface.rs"], [("iterations", "mesh refinement, no-mass convergence loop, shadow-ray loop")],
  "Termination of the refinement, convergence and rejection loops depends on floating-point progress measures that no static ranking argument in reach establishes; at least one (shadow rays that miss their light are retried for ever) is a known risk described in DESIGN.md.")

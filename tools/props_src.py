GA = 'simim/galprops/galprops_am.py'
prop('G01', "A grid's axis descriptions stay mutually consistent",
 "After a grid is built and after any operation that pads, crops, rescales, re-bins or collapses its axes, the pixel counts, pixel sizes, side lengths, centre, cell edges, cell centres and Fourier axes describe the same box, and the data array has exactly that many cells along each axis. Every description of every touched axis is brought up to date together, computed from the values in force after the operation, and untouched axes keep theirs.",
 ['inputs', 'histories', 'configurations'], "every grid shape, axis subset, argument value and sequence of grid operations",
 "Tests rebuild a handful of 1-3 dimensional grids and check a few attributes after one operation; they never check that all attributes agree after every operation and order of operations.",
 [G], [('per-axis attribute updates', G + ' Grid.__init__/pad/crop/scale_axis/down_sample/collapse_dimension'), ('temporary new_* arrays assigned back together', G + ' Grid.pad')],
 state=[('axis attributes', 'n_pixels, pixel_size, side_length, center_point, axes, axes_centers, fourier_axes, fourier_axes_centers, axunits', G)])
prop('G02', "Per-axis arguments act on the axis they are given for",
 "When a grid operation is given a list of axes together with per-axis arguments, or a list of property numbers with per-property values, each argument acts on exactly the axis or property it is listed for, whatever the order of the list and whichever subset is named.",
 ['inputs'], "every subset and ordering of axes or property indices with matching argument lists",
 "Tests only use a single axis or all axes in ascending order, where position in the list and axis number coincide.",
 [G], [('axis list / argument list indexing', G + ' Grid.pad, scale_axis, down_sample, collapse_dimension, convolve, add_from_cat')])
prop('G03', "Operations that return a new grid leave their operands untouched",
 "A grid operation asked to return a new grid (a copy, or any operation with in-place turned off) leaves the original grid's data, axes, units and state flags as they were, and the returned grid shares no modifiable storage with it; temporary transforms applied along the way are undone.",
 ['inputs', 'histories'], "every grid state and argument, followed by any later operation on either grid",
 "Tests compare the returned grid with expected numbers but do not look at the original afterwards nor modify one of the pair and re-read the other.",
 [G], [('copy of every array attribute', G + ' Grid.copy, Grid.copy_axes'), ('in_place branches', G + ' Grid.convolve, collapse_dimension, sum_properties, power_spectrum')])
prop('G04', "Grid operations refuse states they cannot handle before changing anything",
 "An operation that needs gridded data, map space (no Fourier axes), or a map rather than a power spectrum raises an error when the grid is not in that state, before any of the grid's data or descriptions are modified. The same holds for axis numbers and property numbers that do not exist.",
 ['inputs', 'histories'], "every sequence of operations leading to every grid state, every axis/property argument",
 "Tests check a few of the error cases on fresh grids only, and never that the grid is unchanged after the error.",
 [G], [('state guards', G + ' every public Grid method'), ('flags grid_active, fourier_space, is_power_spectrum', G)])
prop('G05', "The grid's Fourier-space record always matches its data",
 "Along every axis, the record of whether the data is in Fourier space changes exactly when the data is transformed along that axis, forward transforms are applied to map-space axes and inverse ones to Fourier-space axes, with reordering applied on the matching side over the same axes. Normalisation multiplies by the cell size going forward and divides by it going back. Operations along other axes leave both the record and the complex numbers of the data alone.",
 ['inputs', 'histories'], "every subset of axes, every mix of already transformed axes, repeated transforms",
 "Tests transform all axes of one small grid once; partial and mixed transforms, and round trips with them, are not sampled.",
 [G], [('fftshift/fftn, ifftn/ifftshift pairing and flag updates', G + ' Grid.fourier_transform'), ('flag propagation', G + ' Grid.power_spectrum, Grid.copy, LoadGrid')])
prop('G06', "Gridding counts every object inside the grid once and none outside",
 "When objects are added to a grid, an object contributes if and only if its position lies within the grid along every axis, each contributes its own value to the cell holding its position, and several objects in one cell add up. Values stay matched with their positions through the selection, and objects outside never wrap around to another cell. A catalogue handler grids its objects at their own coordinates, over the box asked for.",
 ['inputs'], "every catalogue: any number of objects, duplicates, boundary positions, positions outside on any side",
 "Tests grid a few positions; the joint condition over all axes, both sides, boundaries and duplicates is a statement about every catalogue.",
 [G], [('bounds mask applied to positions and values', G + ' Grid.add_from_cat, add_from_pos_plus_array'), ('unbuffered accumulation', G + ' np.add.at'), ('sampling outside gives nan', G + ' Grid.sample')])
prop('G07', "A saved grid loads back with all of its state",
 "Loading a saved grid restores everything that saving recorded: geometry, axis and data units, property count, data, object count, Fourier state and power-spectrum state. Saving never replaces an existing file unless overwriting was requested.",
 ['inputs', 'configurations', 'histories'], "every grid state reachable by grid operations, compressed or not, data present or not",
 "Tests save and load one kind of grid and do not compare every state component.",
 [G], [('record written by save', G + ' Grid.save'), ('record read by the loader', G + ' LoadGrid.__init__')])
prop('G08', "A grid's property count, data and data units stay in step",
 "After any operation that adds, selects or combines the properties held in a grid, the recorded number of properties equals the length of the data array's last axis and there is one data unit per property, so that the grid can subsequently be copied, saved and reloaded.",
 ['inputs', 'histories'], "every sequence of property-adding, selecting and combining operations",
 "Tests add properties but never then copy, save or reload the result with units present.",
 [G], [('n_properties / gridunits updates', G + ' Grid.add_new_prop, copy, copy_axes, sum_properties')])
prop('G09', "Averages over shells count every cell once, in its own shell",
 "The average over shells adds each grid cell whose radius lies within the shells exactly once, to the shell whose edges enclose it and at its own place along the axes that are kept and its own property: the average is the weighted sum over the sum of weights of the same cells, the count adds one per cell, the spread is taken about the average of the same shell, shells chosen automatically enclose every radius, and Fourier data stays complex.",
 ['inputs', 'configurations'], "every choice of axes, weights, shells and bin mode, real and Fourier data",
 "Tests never call the averages; dropped or shifted edge cells only show for particular radii against particular edges.",
 [G], [('shells and sums', G + ' spherical_average')])
prop('U01', "Declared units and little-h exponents agree",
 "For every catalogue field and every generated property, the declared unit string contains exactly the power of h that the declared little-h exponent says it does, and its length unit is the one the loader converts the raw values to.",
 ['configurations'], "every declared field of every supported simulation, every lightcone column and every built-in property",
 "Tests load one mocked simulation; the tables of hundreds of declarations are not enumerated.",
 [IL, UM, UC, GB, LM], [('field tables', IL + ' / ' + UM + ' / ' + UC), ('property definitions', GB), ('lightcone column attributes', LM)])
prop('U02', "Little-h conversions are applied once and in the right direction",
 "Wherever a quantity crosses between h-scaled and physical units (reading catalogue values, handing values to property models and storing their results, mass limits, box lengths and comoving distances), the conversion multiplies or divides by the power of h the declarations call for, exactly once; quantities in different h conventions are never compared or combined.",
 ['inputs', 'configurations'], "every property with every h exponent, both unit choices, every value of h",
 "The mocked simulation used by tests has few properties, and a wrong direction is invisible for dimensionless ones or when h cancels.",
 [H, SH, GP, LM, RS], [('value * h**exponent', H + ' Handler.return_property'), ('inverse on generation', GP + ' Prop.evaluate / ' + H + ' make_property'), ('box and distance conversions', RS + ' / ' + LM)])
prop('U03', "The requested unit convention is honoured on every path",
 "Every catalogue operation that lets the caller choose between h-scaled and physical units uses the caller's choice, or the handler's default when none is given, for every value it reads, compares with or returns, including values obtained through other operations.",
 ['inputs', 'configurations'], "every operation taking a unit choice, with True, False and unspecified, and both handler defaults",
 "Tests exercise a couple of operations with the default unit choice only.",
 [H, SH, LH], [('default resolution', H + ' in_h_units is None'), ('forwarding of the choice', H + ' / ' + SH + ' / ' + LH)])
prop('R01', "All randomness comes from the generator the caller supplies",
 "Any operation that accepts a random generator draws every random number from it and passes it on to everything it calls that draws random numbers, so equal generators give equal results; a fresh generator is only created when the caller supplied none, and no operation uses or reseeds global random state.",
 ['inputs', 'configurations'], "every model and option, every draw on every path",
 "Tests never call most of the stochastic models, and a global-state draw is only visible by comparing repeated seeded runs of that exact path.",
 LINES + SFR + [GA, LM, GP, IN], [('rng parameter threading', 'all model functions'), ('default generator', 'rng=np.random.default_rng()')])
prop('E01', "Data owned by the caller is never modified",
 "No operation modifies an array, list or dictionary passed to it as an argument or returned to it by a function the caller supplied, nor its own default argument values, and objects that are later updated in place do not share storage with arguments they were built from.",
 ['inputs', 'histories'], "every public operation, every argument, and every later operation on the constructed object",
 "Tests discard their inputs, and call each function once, so neither mutation of inputs nor state leaking between calls through defaults shows.",
 [G, H, LH, IN, GP], [('defensive copies of inputs', G + ' np.array(..., copy=True)'), ('argument dictionaries', H + ' / ' + LH)])
prop('H01', "Catalogue property bookkeeping matches what can actually be read",
 "A snapshot or lightcone catalogue handler lists a property as available exactly when it can be read, with its unit and h exponent known: saved, loaded and generated properties are registered when added and forgotten everywhere when deleted. A property is never replaced, on disk or in memory, unless overwriting was requested, and a refused replacement leaves that property as it was.",
 ['histories'], "every sequence of make, write, load, unload and delete operations",
 "Tests make and delete single properties; sequences that mix saved, loaded and generated states are not enumerated.",
 [H], [('property registries', H + ' properties_all/saved/loaded/generated'), ('overwrite guards', H + ' make_property, write_property')])
prop('H02', "The active selection is respected and restored",
 "Operations that evaluate catalogue values use exactly the currently selected objects unless all objects were asked for or the operation documents a selection of its own; restricting the selection only ever removes objects from it (unless it is reset), and operations that change the selection temporarily put back both the selection and its count on completion.",
 ['histories', 'inputs'], "every sequence of range selections and evaluations",
 "Tests apply a single selection and read one property.",
 [H, LH], [('active index lists', H + ' inds_active, nhalos_active, set_property_range, return_property'), ('temporary selection', LH + ' eval_stat_evo')])
prop('H03', "Only operations meant to change catalogue files open them for writing",
 "Reading, plotting, selecting and statistics open catalogue files read-only; only the operations whose purpose is to create, write or delete stored properties open them for modification, every opened file is closed on every path, and a stored property always has an entry for every object in the file, not only for those currently selected.",
 ['histories', 'fault_sequences'], "every public operation of the catalogue handlers, normal and exceptional paths",
 "Tests only look at returned values, not at how files were opened or left.",
 [H, SH, LH, RS, LM], [('open modes', 'h5py.File(..., mode)'), ('stored length', H + ' write_property / make_property')])
prop('L01', "Lightcone files contain everything lightcone readers need",
 "Every lightcone file and metadata record that a lightcone builder writes contains each metadata entry, attribute and column that opening, extending, or computing volumes from that lightcone reads, for every kind of lightcone.",
 ['configurations', 'inputs'], "every builder (rectangular, circular, spherical) and every reader operation",
 "Lightcone readers have no tests at all; builder tests only build one kind.",
 [LM, LH], [('metadata dictionary and hdf5 attributes', LM + ' build_lightcones, add_properties'), ('readers', LH + ' LCHandler.__init__, volume')])
prop('L02', "Every column of a lightcone describes the same halo in each row",
 "In a lightcone under construction, all columns (position, distance, redshift, mass, source snapshot and source index, plus later added properties) are filtered by the same selections and extended together, so a row never mixes halos; the redshift is the one the cosmology of the simulation gives for the distance; the halos taken of a snapshot are those of at least the minimum mass; and a property added later is taken from the snapshot and index recorded in that row, looked up among no fewer halos.",
 ['inputs', 'configurations'], "every catalogue, geometry, snapshot range, mass limit and number of blocks",
 "Tests check that files exist and simple totals; row alignment over all blocks is a property of every run.",
 [LM], [('common selection arrays', LM + ' build_lightcones'), ('snapshot/index look-up', LM + ' add_properties, add_pos_properties')])
prop('L03', "Lightcone slabs tile distance without gaps or overlaps",
 "Each halo is placed from the single snapshot whose comoving-distance range contains it: ranges are half-open, consecutive ranges share their boundary, the outer limits are the requested redshifts, and halos below the mass limit or outside the field are excluded while every other halo in range is kept; a light sphere reaching farther than the box holds in every direction is refused.",
 ['inputs', 'configurations'], "every redshift range, snapshot spacing, geometry and mass limit",
 "Tests build one small lightcone; a halo exactly at a boundary or a gap between slabs is not sampled.",
 [LM, SH], [('slab limits and comparisons', LM + ' _snapshots_use / build_lightcones')])
prop('L04', "Vectors and positions undergo the same lightcone rotation",
 "Wherever halo positions are re-oriented (axis permutation, flips, line-of-sight and position-angle rotation) in building a lightcone, the same recorded transformation, in the same order, is applied to velocities and other vector properties of those halos, and everything needed to repeat it is stored with the lightcone.",
 ['inputs', 'configurations'], "every random orientation and every vector property",
 "A single seeded run cannot distinguish a missing flip or permutation that happens to be the identity.",
 [LM], [('orientation arrays', LM + ' pointing_* and their use in build_lightcones / add_pos_properties')])
prop('L05', "A light cone's volume is that of the region asked for, if it holds it",
 "The volume reported for a light cone is the comoving volume between the redshifts asked for times the share of the sky its shape, opening angle and aspect ratio cover, in the unit convention asked for, and of several light cones that of the one asked for. A region reaching outside the light cone, in redshift or on the sky, is refused; a region inside it is accepted. What is not said takes the light cone's own value.",
 ['inputs', 'configurations'], "every shape of light cone and region, redshift range, opening angle, aspect ratio and unit convention",
 "Tests ask for the default volume of one light cone or a few; which regions fit in a cone of another shape is never asked.",
 [LH], [('volume', LH + ' LCHandler.volume, LCIterator.volume')])
prop('L06', "Operations on a set of light cones act on each light cone, under its number",
 "A set of light cones holds exactly the light cones asked for (every one of its directory if none are named), each read from the file with its number. An operation on the set does to each light cone what that operation does to it alone, with the results listed under the numbers. Light cones that differ in cosmology, shape, redshift range or angles are refused or known to differ, and equal ones never are. A statistic followed over redshift has one value per bin in rising order, given the limits and volume of its bin if and only if they are asked for.",
 ['inputs', 'configurations', 'histories'], "every set of light cones, their parameters, and every operation offered for sets",
 "Tests build one or two identical light cones; a wrapper that reaches the wrong light cone or operation gives plausible results.",
 [LH], [('wrappers made at run time', LH + ' LCIterator.__init__'), ('consistency check', LH + ' LCIterator.__init__'), ('redshift bins', LH + ' LCHandler.eval_stat_evo')])
prop('L07', "Properties added to light cones are the ones asked for, in each light cone",
 "Adding properties to a set of light cones adds, to every light cone of the set and to no other, exactly the columns asked for that the catalogue has and the light cones have not (three components at a time for vectors), each filled from the property of its name for every snapshot used and described with its unit and h exponent; all other columns stay as they were, and the light cones are marked complete.",
 ['inputs', 'histories'], "every mix of requested names: new, present, positional, unknown, and the mass check",
 "Tests do not add properties; a column filled from the wrong property, or missing in one light cone, looks like any other.",
 ["simim/lightcone/lcmaker.py"], [("added properties", "simim/lightcone/lcmaker.py" + ' GenericLCMaker.add_properties, add_pos_properties')])
prop('D01', "Deletions are confirmed and hit only the named target",
 "Files or directories are only removed or replaced after the caller asked for it (an explicit flag or confirmed prompt), and the removal targets exactly the path derived from the object being cleaned, with path text never interpreted by a shell.",
 ['inputs', 'configurations'], "every destructive operation, every data directory name including spaces and shell characters",
 "Tests use tame temporary paths and never refuse a prompt.",
 [RS, PA, IL, UM, UC, LM], [('clean-up', RS + ' clean_raw, realtime_clean_raw'), ('prompts', PA + ' / ' + RS)])
prop('D02', "An interrupted download or setup is never mistaken for a finished one",
 "The file whose existence marks a dataset, metadata set or model table as complete is created only after everything it vouches for has been written and closed, downloaded files appear under their final name only when complete, and raw data is only removed once the formatted copy is complete and closed.",
 ['crash_points', 'fault_sequences'], "a crash or error at any point between the first and last write",
 "Tests run every step to completion.",
 [RS, IL, UM, UC] + SFR, [('marker files', 'meta.npy, snapshot files, spline tables'), ('raw removal', RS + ' format')])
prop('P01', "The path registry returns what was last registered",
 "A simulation, lightcone or property path registered under a name is found again under exactly that name in later sessions, for any path text including spaces; registering a name again replaces the earlier path, unknown names raise an error, and nothing is registered or looked up before a root directory was set.",
 ['inputs', 'histories'], "every name and path string, every sequence of registrations",
 "Tests register one path without spaces.",
 [PA], [('registry files', PA + ' _SimIMPaths.__init__/_newsimpath/_newlcpath/_newproppath')])
prop('I01', "Instrument samples are never taken from outdated maps",
 "Any change to an instrument's detectors, responses, beams or fields marks every affected map as outdated, and sampling a field with no current map either remakes the map or raises an error.",
 ['histories'], "every order of adding or changing detectors, responses and fields, mapping and sampling",
 "Tests follow one straight sequence.",
 [IN], [('consistency flags', IN + ' maps_consistent')])
prop('I02', "Observing a field never alters the field",
 "Adding a field to an instrument, mapping and sampling it leave the user's grid unchanged, so mapping again with another detector gives the result it would have given on a fresh copy.",
 ['histories', 'inputs'], "every instrument configuration and sequence of mapping operations",
 "Tests map once and never re-read the input grid.",
 [IN, G], [('working copies', IN + ' _setup_beam, map_fields')])
prop('I03', "Instrument bookkeeping stays aligned with its detectors and fields",
 "Every per-detector and per-field record an instrument keeps has an entry for exactly the detectors and fields it currently holds; adding checks name clashes and input compatibility first, and an addition that fails leaves the instrument as it was.",
 ['histories', 'fault_sequences'], "every sequence of additions and removals, including failing ones",
 "Tests add and remove one detector and one field.",
 [IN, IH], [('parallel dictionaries', IN + ' add_detector, del_detector, add_field, del_fields')])
prop('I04', 'Each detector sees the field through its own response',
 "The map of a field holds, for each detector in the instrument's order, the mapped property of the field convolved with that detector's spatial response over the two sky axes, scaled frequency by frequency as requested, and averaged over frequency with that detector's spectral response. Sampling returns one column per detector in the same order: that detector's map at the positions moved by its pointing offset, plus noise from its own noise function. Setting a response changes exactly the detectors named.",
 ['inputs', 'configurations'], 'every set of detectors, sharing or not sharing responses, settings and offsets, in every order; every field, mapped property and beam scaling',
 'Tests use one or two detectors with equal or trivial responses, where exchanged detectors cannot be told apart.',
 ['simim/instrument/instrument.py'], [('groups of detectors sharing a beam or a pointing', 'simim/instrument/instrument.py _find_spatial_clones, _find_pointing_clones, map_fields, sample_fields, _setup_beam, _set_response')])
prop('I05', "Built-in responses, beams and noise have the shape their parameters name",
 "The Gaussian spectral response has height A at freq0 and falls to half at half its width on either side, the boxcar is A within half its width of freq0 and zero outside; beams are one at their centre and a half at half the width given for each axis (scaled with frequency as documented), with the first spatial coordinate along the first axis, the second along the second and frequency along the third; white noise has the requested number of samples, its bias as mean and a standard deviation of rms over the square root of the sample time.",
 ['inputs'], "every value of every parameter and coordinate",
 "Tests use symmetric beams and default widths, for which swapped axes and misplaced factors look right.",
 ['simim/instrument/spectral_response.py', 'simim/instrument/spatial_response.py', 'simim/instrument/noise_functions.py'], [('closed forms', 'gauss_response, boxcar_response, gauss_psf, gauss_psf_freq_dependent, zero_noise, white_noise')])
prop('M01', "Built-in properties call their models with the right inputs",
 "Every built-in property names inputs its model function accepts, covers every input the model requires, and declares as many outputs, units and h exponents as the model returns; multi-property definitions pass each sub-property its own settings and the caller's keyword arguments.",
 ['configurations'], "every built-in property definition",
 "No test evaluates the built-in properties.",
 [GP, GB] + LINES + SFR, [('Prop/MultiProp declarations', GB), ('argument assembly', GP + ' Prop.evaluate, MultiProp.evaluate')])
prop('M02', "Every documented model option is fully defined and others are rejected",
 "For every combination of the discrete options a galaxy-property model accepts, all of its coefficients are defined; any other value is refused with an error that says so, never by computing with coefficients left over or missing.",
 ['configurations'], "every combination of line, sample, mode and option strings, plus values outside the accepted set",
 "Tests do not call these models.",
 LINES + SFR + [GA], [('option dispatch', 'line/sfr model functions')])
prop('S01', "Every supported simulation can be set up and loads what it lists",
 "Every simulation name accepted as supported maps to a data source, and every field a data source lists as available is actually produced by its loader, once, under that name and with a numeric type matching the declaration, with every listed file used.",
 ['configurations'], "every supported simulation name and every listed field",
 "Tests use one mocked simulation.",
 [SI, IL, UM, UC, RS], [('supported names', SI), ('field tables and loaders', IL + ' / ' + UM + ' / ' + UC)])
prop('S02', "Formatted snapshots are internally consistent",
 "When raw snapshots are formatted, every column of a snapshot is reordered and cut by the same selection, and the stored metadata lists exactly the snapshots and object counts that were stored.",
 ['inputs', 'configurations'], "every set of requested snapshots, mass cut and storage layout",
 "Tests format all snapshots of a tiny mock in one layout.",
 [RS], [('formatting', RS + ' SimCatalogs.format')])
prop('S03', "Snapshot tables and lookups describe the right snapshot",
 "Whatever snapshots are selected and in whatever order a server lists them, each row of the snapshot metadata holds the number and redshift of one selected snapshot and the file read for that number is the file of that redshift; snapshots tile time, each beginning where the one before ends, half way between their ages, from the redshift of the first to today, with distances belonging to the redshifts they stand next to in Mpc/h; looking a snapshot up by redshift or number gives the one that holds it, handled with its own data and redshift; the number of halos read for a mass limit leaves none out; statistics followed over snapshots stand next to the redshift they were taken at; and every cosmology is built from the parameters of its own simulation.",
 ['inputs', 'configurations'], "every supported simulation, selection of snapshots, listing order, redshift, snapshot number and mass limit",
 "The metadata of all but the miniature test box is made from server answers no offline test can fetch; tests read one box with three snapshots listed in order.",
 [RS, IL, UM, UC, SH], [('snapshot metadata', 'download_meta of each catalogue class'), ('bounds of a snapshot', 'Snapshot.dif_lowerz_snap, dif_higherz_snap'), ('lookups', 'SimHandler.z_to_snap, extract_snap_meta, get_snap, get_mass_index')])
prop('S04', "What is done to a simulation is done to each of its snapshots",
 "Selecting, making, writing and deleting properties and choosing units through the handler of a simulation leave every one of its snapshots, in memory and on disk, exactly as the same operation on that snapshot alone would; the handler given for a snapshot number or redshift holds the data, redshift and unit choice that belong to it whether snapshots are kept or opened on demand; a statistic over snapshots has one value for each; and an operation that would be refused for a snapshot is refused with the file left as it was.",
 ['inputs', 'configurations', 'histories'], "every order in which snapshots are listed, every operation and its options, snapshots kept in memory or opened on demand",
 "Tests use one miniature box with snapshots in one order and look at one snapshot after each operation.",
 [SH], [('iteration over snapshots', SH + ' SimHandler.make_property, delete_property, set_property_range, snap_stat, set_in_h_units'), ('handlers of snapshots', SH + ' SimHandler.get_snap, initialize_all_snaps')])
prop('V01', "Plots show the data they name, where it belongs",
 "Every value a plot or animation draws is that of the place, frame, property, object selection and detector it is drawn for: images of grids put each cell at the coordinates of its axes, in map or Fourier space and for every choice of axes; animation frames show their own slice, with its title and marker; catalogue plots, histograms and light cone animations draw the named properties of the chosen objects under their names; detector responses and model tables are drawn against the coordinates they are evaluated at.",
 ['inputs', 'configurations'], "every choice of axes, slices, frames, properties, selections and scales, in grids of two to four dimensions",
 "No test looks at what is drawn; a transposed or shifted image looks plausible.",
 [G, H, LH, IN, 'simim/galprops/sfr_behroozi13.py'], [('grid images', G + ' Grid.visualize, animate'), ('catalogue plots', H + ' Handler.plot, hist'), ('light cone animation', LH + ' LCHandler.animate'), ('detector response', IN + ' Instrument.plot_detector_response'), ('model table', 'sfr_behroozi13 plot_grid')])
prop('A01', "Luminosity distributions and abundance matching are consistent",
 "Every luminosity function and its distribution agree: the integral has the function as its derivative and vanishes at infinity (tabulated ones fall by the function times the step of their table), the probability density is the function divided by its whole integral, the cumulative distribution is the fraction of the integral below a value, the quantile function interpolates the inverse of that same distribution, and nothing lies below the lower limit, for slopes of either sign, single values and arrays. Abundance matching of two distributions, or of a catalogue and a distribution, gives each value of one property the value of the other at the same cumulative fraction (the opposite fraction in reverse order), counting the stated missing fractions at either end, and uses the requested filling outside the matched range, the same for arrays as for single values.",
 ['inputs', 'configurations'], "every value of the symbolic parameters; representative slopes between -2.75 and 0.5 and one value per region of the matched range",
 "No test covers the distributions or the matching; a wrong normalisation or recursion step gives smooth, plausible curves.",
 [GA], [('luminosity functions', GA + ' schechter_gen, double_schechter_gen, modified_schechter_gen, double_power_law_gen'), ('abundance matching', GA + ' am_dfdf, am_dfcat')])
prop('X01', "No operation ends in an internal programming error",
 "No public operation, for any documented arguments, fails because the code refers to a name, attribute or keyword argument that does not exist, uses a result it never computed, or silently drops an entry of a table by repeating its key.",
 ['inputs', 'configurations'], "every path through every function",
 "A misspelt name on an untested path is invisible until that path runs; test coverage of the package is partial.",
 ['simim'], [('name and attribute resolution', 'whole package')])
prop('X02', "Failures are raised, never returned or swallowed",
 "When an operation detects invalid input or incomplete setup it raises an error; it never returns an error object as a result, computes a check or a result that is silently discarded, or hides failures behind a blanket handler that continues without even a warning.",
 ['inputs', 'fault_sequences'], "every error path of every function",
 "Error paths are barely tested.",
 ['simim'], [('raise statements and handlers', 'whole package')])
# ---- not decidable by static analysis here
prop('N01', "Sampled luminosities and masses follow the requested distribution",
 "Values drawn from the supported luminosity and mass functions follow the requested distribution, and abundance matching preserves rank order and total number density.",
 ['inputs'], "every parameter set of every distribution", "Statistical and numerical: tests compare a few moments at most.",
 [GA], [('samplers', GA)])
prop('N02', "Power spectra and Fourier transforms are numerically correct",
 "The power spectrum of a map equals the squared modulus of its normalised Fourier transform, a forward followed by an inverse transform returns the original data to rounding, and averaging in shells is unbiased.",
 ['inputs'], "every data array", "Numerical equality over all arrays.", [G], [('fft arithmetic', G)])
prop('N03', "Convolution with a normalised beam conserves flux",
 "Convolving a map with a beam normalised to unit area preserves the total flux of sources away from the edges.",
 ['inputs'], "every map and beam", "Numerical.", [G, IN], [('fftconvolve', G)])
prop('N04', "Lightcone lines of sight do not repeat the same volume",
 "The chosen lines of sight never pass through the same region of the periodic box twice within the requested number of copies.",
 ['inputs'], "every random orientation", "Depends on the geometry of random draws.", [LM], [('line of sight selection', LM)])
prop('N05', "Model luminosities and star formation rates match the published relations",
 "Every model reproduces the published relation it cites at every input.",
 ['inputs'], "every input", "The oracle is the literature, not the code.", LINES + SFR, [('coefficients', 'model files')])

"""The listed properties: source of properties.jsonl and MANIFEST.json"""

G = 'gravity_toolkit/'


def P(pid, title, statement, over, text, why, files, mech, technique, note):
    return dict(id=pid, title=title, statement=' '.join(statement.split()),
        over=over, text=' '.join(text.split()), why=' '.join(why.split()),
        files=files, mech=mech, technique=technique,
        note=' '.join(note.split()))


PROPERTIES = [
P('L01', 'Legendre functions agree with their definition for every method',
  '''For every degree, order limit and argument in [-1, 1], each method of
  computing fully-normalised associated Legendre functions (Colombo, Holmes,
  Mohlenkamp), the zonal functions and the fixed-degree functions (normalised
  or unnormalised) return the 4-pi normalised, Condon-Shortley-free (unnormalised:
  Condon-Shortley) functions of the definition, in arrays of the documented shape.
  The returned derivatives are derivatives with respect to colatitude, and the
  functions are orthogonal and satisfy the addition theorem.''',
  ['inputs', 'configurations'],
  '''maximum degrees from 1 to 250, order limits from 0 to the degree, arguments
  from pole to pole (poles and equator included) as scalars, lists and arrays,
  each of the methods''',
  '''Existing tests look at degree 3 at three arguments and one comparison at
  degree 240 and one argument; recursion errors depend on degree, order, order
  limit and distance from the pole.''',
  [G+'associated_legendre.py', G+'legendre.py', G+'legendre_polynomials.py'],
  [('Holmes/Colombo/Mohlenkamp recursions', G+'associated_legendre.py'),
   ('fixed degree downward recursion with underflow branch', G+'legendre.py'),
   ('zonal recursion with polar overwrite', G+'legendre_polynomials.py')],
  'property-based testing against an extended-precision reference recursion, '
  'orthogonality and the addition theorem',
  'agreement to about 1e-9 with an independent extended-precision reference on '
  'all generated cases; derivatives are compared away from the exact poles'),

P('S01', 'Synthesis of fields equals the direct spherical harmonic sum',
  '''Evaluating spherical harmonic coefficients on a grid by direct summation, by
  the transform variant, at scattered points by Clenshaw summation or with a unit
  conversion, gives at every location the sum over all requested degrees and
  orders of the coefficients times the fully-normalised basis functions, divided
  or multiplied by the requested unit factors and smoothing weights.  Degree
  windows, order limits, precomputed Legendre functions and alternative
  longitude conventions never change the value at a location.  Synthesis is
  linear in the coefficients.''',
  ['inputs', 'configurations'],
  '''coefficient sets of degree 1 to 60 (dense, sparse, single), lower/upper
  degree and order limits, arbitrary longitudes and latitudes, smoothing radii,
  unit codes and Love numbers''',
  '''Existing tests only evaluate two fixed fields; the guarantee is over all
  coefficients, windows and locations and over agreement of four algorithms.''',
  [G+'harmonic_summation.py', G+'clenshaw_summation.py', G+'units.py'],
  [('grid summation', G+'harmonic_summation.py:harmonic_summation'),
   ('FFT-style summation', G+'harmonic_summation.py:harmonic_transform'),
   ('unit-aware summation', G+'harmonic_summation.py:stokes_summation'),
   ('Clenshaw recursion', G+'clenshaw_summation.py')],
  'property-based testing: differential against an independent direct sum',
  'values agree with an independent direct sum on every generated case, relative '
  'to the coefficient norm'),

P('S02', 'Analysis of gridded fields recovers band-limited coefficients',
  '''Converting a gridded field that is band-limited to the requested degree into
  spherical harmonics returns that field's coefficients (multiplied by the
  documented unit factors) up to the discretisation error of the quadrature used,
  for grids in either latitude order convention and any order limit.  The
  conversion is linear in the field, coefficients outside the degree/order window
  are absent or zero, and synthesising then analysing a field is the identity for
  the exact (Fourier) variants.''',
  ['inputs', 'configurations'],
  '''coefficient sets of degree up to 60, grid spacings, precomputed Legendre
  functions, order limits, minimum degrees, unit codes and Love numbers''',
  '''Existing tests take one load and one field; the guarantee is over all fields,
  windows, spacings and units.''',
  [G+'gen_harmonics.py', G+'gen_stokes.py', G+'fourier_legendre.py'],
  [('integration and Fourier analysis', G+'gen_harmonics.py'),
   ('unit-aware integration', G+'gen_stokes.py'),
   ('Fourier coefficients of Legendre functions', G+'fourier_legendre.py')],
  'property-based testing: round trip synthesis/analysis and linearity',
  'round trips within the quadrature error bound measured against exact '
  'Gauss-Legendre references'),

P('S03', 'Gradient fields and geostrophic currents are derivatives of the field',
  '''The zonal and meridional gradient fields computed from a set of coefficients
  equal the partial derivatives of the synthesised field with respect to
  longitude and latitude (scaled as documented), and the geostrophic current
  fields equal the Coriolis-scaled cross-gradient of the synthesised geoid.  Both
  are linear in the coefficients and respect the requested degree and order
  limits.''',
  ['inputs', 'configurations'],
  'coefficients of degree 2 to 40, degree/order limits, locations off the poles',
  'no existing test evaluates gradients at all',
  [G+'harmonic_gradients.py', G+'fourier_legendre.py'],
  [('gradient sums', G+'harmonic_gradients.py:harmonic_gradients'),
   ('current sums', G+'harmonic_gradients.py:geostrophic_currents'),
   ('Fourier coefficients of derivatives', G+'fourier_legendre.py:legendre_gradient')],
  'property-based testing: differential against numerical derivatives of an '
  'independent synthesis',
  'agreement with derivatives of the reference synthesis'),

P('K01', 'Load coefficients conserve mass and follow the closed-form kernels',
  '''The coefficients generated for point masses, uniform discs and spherical caps
  equal the analytic surface-density expansion of that load for the given units,
  radius and Love numbers: degree zero carries the total mass of the load (the area of
  a cap being the plane area of its arc radius).  A load at any place is the rotation
  of the same load at the pole, and coefficients of several loads add; giving a cap by
  its area, its radius in kilometers or its angle is equivalent, and precomputed
  Legendre functions or an order limit change no other coefficient.''',
  ['inputs', 'configurations'],
  '''load positions (poles, date line), sizes, magnitudes, unit codes, degree and
  order limits and Love numbers''',
  '''One existing test compares single loads at fixed positions; the guarantee
  ranges over positions, sizes and units.''',
  [G+'gen_disc_load.py', G+'gen_spherical_cap.py', G+'gen_point_load.py'],
  [('disc kernel', G+'gen_disc_load.py'), ('cap kernel', G+'gen_spherical_cap.py'),
   ('point kernel', G+'gen_point_load.py')],
  'property-based testing against closed-form expansions and metamorphic rotation',
  'coefficients equal an independent closed-form expansion for all generated loads'),

P('K02', 'Smoothing weights and averaging kernels follow their recursions',
  '''Gaussian smoothing weights are one at degree zero, non-negative, never
  increasing with degree or radius and follow the half-width definition at the
  distance of the smoothing radius, with zero radius meaning no smoothing.  Smoothing a set of
  harmonics multiplies each degree by its weight.  Averaging kernels equal the
  documented kernel coefficients scaled by the smoothing weights.''',
  ['inputs', 'configurations'],
  'radii from 0 to 2000 km, maximum degrees 1 to 200, cut-off settings',
  'no existing test computes a smoothing weight',
  [G+'gauss_weights.py', G+'gen_averaging_kernel.py', G+'degree_amplitude.py'],
  [('recursion with cut-off', G+'gauss_weights.py'),
   ('kernel normalisation', G+'gen_averaging_kernel.py')],
  'property-based testing against Legendre coefficients of the Gaussian (quadrature)',
  'weights agree with exact quadrature of the Gaussian kernel above the cut-off'),
]

PROPERTIES += [
P('U01', 'Unit conversion factors are mutually consistent for all degrees',
  '''For every maximum degree, set of Love numbers and combination of options, each
  degree-dependent and spatial conversion factor equals its defining formula in
  the Earth parameters, so factors for different units differ only by the physical
  constants that relate those units.  Factors selected by name, by code or by
  index are the same factors, unknown names are rejected, and each entry depends
  only on its own degree.''',
  ['inputs', 'configurations'],
  '''maximum degrees 0 to 200, Love numbers, elastic-response switches, unit names
  and codes''',
  '''Existing tests check four constants at one maximum degree; nothing relates the
  units to each other for arbitrary Love numbers.''',
  [G+'units.py'], [('harmonic and spatial factors', G+'units.py')],
  'property-based testing against defining formulas and metamorphic relations',
  'every factor compared with its formula over generated Love numbers'),

P('V01', 'Load Love numbers are read, interpolated and re-framed faithfully',
  '''Reading a table of load Love numbers returns, for every degree present in the
  table, exactly the tabulated values of the requested columns; degrees absent
  between entries or beyond the table follow the documented interpolation and
  asymptotic extrapolation.  Changing the reference frame of the degree-one
  numbers applies the documented offset to degree one only, is the same for every
  output format, and leaves all other degrees unchanged.''',
  ['inputs', 'configurations'],
  '''generated tables (gaps, column orders, headers), every distributed table,
  maximum degrees below, at and above the table, reference frames, output formats''',
  '''Existing tests read the distributed tables at one maximum degree; the value
  at the table boundary and the effect of frames and formats are not covered.''',
  [G+'read_love_numbers.py'],
  [('reader and extrapolation', G+'read_love_numbers.py:read_love_numbers'),
   ('model selection', G+'read_love_numbers.py:load_love_numbers'),
   ('container', G+'read_love_numbers.py:love_numbers')],
  'property-based testing: generated Love number files against the written table',
  'exact agreement with the generated table'),

P('H01', 'Operations on spherical harmonic objects match plain coefficient algebra',
  '''After any sequence of operations (add, subtract, multiply, divide, scale,
  power, convolve, truncate, expand, squeeze, remove mean, destripe excluded) the
  coefficients, degree and order limits, dimensions and times of a spherical
  harmonic object equal those of the same sequence applied to plain coefficient
  arrays.  Operations that return new objects leave their operands unchanged, and
  truncation keeps exactly the coefficients inside the window.''',
  ['histories', 'inputs'],
  '''sequences of operations on static and time-variable coefficients with full and
  truncated orders, scalars, degree factors and per-time factors''',
  '''Existing tests perform one operation on one object; interactions between
  operations and dimension bookkeeping are histories.''',
  [G+'harmonics.py'], [('coefficient container', G+'harmonics.py:harmonics')],
  'stateful property-based testing against a numpy model',
  'every step of each generated history compared with the model'),

P('H02', 'Harmonic objects give independent copies and up-to-date derived views',
  '''Copying an object, taking an empty copy or building one from a dictionary gives
  data that later changes to either object cannot reach.  Derived views (complex
  coefficients, amplitude, degree amplitude, dimension
  attributes and text form) always describe the present coefficients, also after
  the coefficients were changed.''',
  ['histories'],
  'sequences that interleave copies, in-place changes and reads of derived views',
  'no existing test changes an object after reading a derived view or copying it',
  [G+'harmonics.py', G+'degree_amplitude.py'],
  [('copies and derived properties', G+'harmonics.py:harmonics'),
   ('degree amplitude', G+'degree_amplitude.py')],
  'stateful property-based testing: aliasing and freshness invariants',
  'all derived views recomputed from the raw coefficients after every change'),

P('H03', 'Harmonic files round trip through every supported format',
  '''Writing spherical harmonics to ascii, netCDF4 or HDF5 (single dates or series,
  with or without dates, plain or compressed, by name or through an index file) and
  reading them back returns the same coefficients (to the written precision),
  degrees, orders, times and months.  The result does not depend on which format
  was used, and reading never modifies the file.''',
  ['inputs', 'configurations'],
  '''coefficients, dates (including month number gaps), truncated orders, formats,
  compression, file lists and attribute dictionaries''',
  '''No existing test writes a harmonic file; all combinations of format, date flag
  and dimension are configurations.''',
  [G+'harmonics.py'],
  [('writers and readers', G+'harmonics.py:harmonics.to_*, from_*')],
  'property-based testing: write/read round trip and cross-format differential',
  'round trips exact for binary formats, to printed precision for ascii'),

P('H04', 'Harmonic time series keep coefficients, times and months together',
  '''Building a series from single-date objects (from a list, file list or
  dictionary, sorted or not), taking an index, a subset of months, iterating,
  flattening and expanding, and removing a mean always keep every date's
  coefficients with that date's time, month and file, and never drop, duplicate
  or reorder dates other than as requested.  Taking apart and rebuilding a series is
  the identity; requesting months that are not present is an error.''',
  ['histories', 'inputs'],
  '''series of 1 to 12 dates in arbitrary order with gaps, requested month lists,
  flatten/expand windows''',
  'existing tests never build a series out of order or take one apart',
  [G+'harmonics.py'], [('series operations', G+'harmonics.py:harmonics')],
  'property-based testing with uniquely tagged dates',
  'each date is tagged by its coefficients so any misassociation is visible'),

P('D01', 'Decorrelation filtering is a linear, parity-separated polynomial removal',
  '''Destriping removes, from each order of five or more, the least-squares quadratic
  polynomial over a moving window of degrees of the same parity (the documented
  order-dependent window, rounded or floored, moved inside at the first and last
  degrees), leaving all lower orders, degrees and orders beyond the limits and terms
  outside the triangle untouched; a parity with fewer degrees than the window is removed
  entirely or, with the narrow option, left as it is.  The filter is linear, treats cosine
  and sine terms and even and odd degrees independently, and leaves its input and the
  times unchanged.''',
  ['inputs', 'configurations'],
  'coefficients of degree 1 to 70, degree and order limits, window flags',
  'no existing test destripes anything',
  [G+'destripe_harmonics.py', G+'harmonics.py'],
  [('moving window filter', G+'destripe_harmonics.py')],
  'property-based testing against an independent windowed polynomial reference',
  'output equals an independent reference implementation of the filter'),

P('G01', 'Spatial object operations match masked array algebra',
  '''After any sequence of operations on a gridded object (offset, scale, power, mean,
  sum, maximum and minimum, scaling factors, flip, transpose, expand, squeeze, replacing
  masked or invalid values, index, subset, extend, iterate) the data, mask, coordinates, times
  and months equal those of the same sequence on masked arrays: invalid cells stay
  invalid, valid cells are computed exactly, and the coordinates move with their
  data.''',
  ['histories', 'inputs'],
  'grids with arbitrary masks, fill values, 2 and 3 dimensions, operation sequences',
  'no existing test combines operations with masks',
  [G+'spatial.py'], [('grid container', G+'spatial.py:spatial')],
  'stateful property-based testing against a numpy masked-array model',
  'every step of each generated history compared with the model'),

P('G02', 'Spatial files round trip through every supported format',
  '''Writing grids to ascii, netCDF4 or HDF5 (single or time series, with or without
  dates and errors, compressed or not, single or list/index of files) and reading
  them back returns the same data, mask, coordinates, times, months and attributes to the
  written precision, whatever the longitude and latitude ranges and spacing.  The
  result does not depend on the format used.''',
  ['inputs', 'configurations'],
  'grids, spacings, extents, masks, dates, formats, variable names',
  'no existing test writes a spatial file',
  [G+'spatial.py'], [('writers and readers', G+'spatial.py:spatial.to_*, from_*')],
  'property-based testing: write/read round trip and cross-format differential',
  'round trips exact for binary formats, to printed precision for ascii'),

P('T01', 'Time conversions are exact and mutually inverse over all dates',
  '''For every calendar date, epoch and unit, conversions between calendar dates,
  decimal years, Modified Julian days, elapsed time and date strings agree with the
  Gregorian calendar, invert each other, and treat scalars and arrays alike.  Leap
  years, month lengths and time units follow their definitions; month and year
  boundaries are never off by a day.''',
  ['inputs'],
  'all dates from 1583 to 3999, epochs, units, date strings with time zones',
  '''Existing tests sample a few conversions; calendar errors show only at certain
  years, months and boundaries.''',
  [G+'time.py'],
  [('calendar conversions', G+'time.py:convert_calendar_decimal, convert_julian'),
   ('date strings and epochs', G+'time.py:parse_date_string, convert_delta_time')],
  'property-based testing against datetime / civil-calendar arithmetic',
  'all conversions compared with exact integer calendar arithmetic'),

P('T02', 'GRACE month numbers identify the measurement months uniquely',
  '''Converting a calendar year and month to a GRACE month number and back is a
  bijection that increases by one per month; the number obtained from a mid-month decimal
  date is that of its month.  The adjustment for shifted months resolves the known
  overlapping months of the mission so that no two solutions of the standard sequence
  share a month, and changes nothing else.''',
  ['inputs', 'histories'],
  'calendar months over centuries, date series with and without the anomalous months',
  'an existing test covers the conversion for a few months, not the adjustment over series',
  [G+'time.py'],
  [('month numbering', G+'time.py:calendar_to_grace, grace_to_calendar'),
   ('anomalous months', G+'time.py:adjust_months')],
  'property-based testing: bijection and adjustment reference model',
  'exact agreement with an integer model'),

P('T03', 'Date indices list exactly the available solutions with correct dates',
  '''From the index of an archive of monthly solutions the date index lists each solution
  once with its month number, mid-date, start and end day and total days computed exactly
  from its file name, in the order of the archive, for every centre, release and product.
  The month finder reports exactly the indexed months, their dates, the first and last month
  and every month missing since April 2002; the multi-centre table shows each month for
  each centre with the dates of that centre.''',
  ['inputs', 'histories'],
  '''directories of synthetic file names for centres, releases, products and missions with
  gaps, mid-month spans and year crossings''',
  'no existing test builds an index',
  [G+'grace_date.py', G+'grace_find_months.py', G+'grace_months_index.py'],
  [('date computation', G+'grace_date.py'), ('month finder', G+'grace_find_months.py'),
   ('index table', G+'grace_months_index.py')],
  'property-based testing with generated archive directories',
  'index contents recomputed from the generated names'),
]

PROPERTIES += [
P('F01', 'Level-2 gravity files decode to exactly the coefficients written',
  '''Reading a Level-2 gravity field file (GRACE/GRACE-FO text products of every
  centre and release, plain or compressed, and ICGEM-style products) returns
  each coefficient, uncertainty, epoch, mean date and header constant in the file at
  its own degree and order and zero elsewhere (one for a missing degree-zero term),
  truncated to the requested limits.  Pole-tide corrections change only the degree-two
  order-one terms by the documented amounts, and date metadata come from the file name or header exactly.''',
  ['inputs', 'configurations'],
  '''generated files with varying headers, column formats, coefficient sets, degree/
  order limits, centres, releases, product kinds and compression''',
  'no existing test reads a Level-2 file (they need the network)',
  [G+'read_GRACE_harmonics.py', G+'read_gfc_harmonics.py'],
  [('Level-2 parser', G+'read_GRACE_harmonics.py'),
   ('ICGEM wrapper and name parsing', G+'read_gfc_harmonics.py')],
  'property-based testing with generated Level-2 files',
  'decoded content compared with the generating description'),

P('F02', 'Monthly assembly replaces exactly the requested low-degree terms',
  '''Assembling a range of months returns one field per available, not excluded
  month, in order, equal to the file contents within the degree and order limits;
  with replacement options only the selected low-degree coefficients are replaced,
  by the values of the matching month of the selected series.  Optional atmospheric
  corrections are added for the documented periods only, removed drift or pole tide
  terms affect only their coefficients, and a month missing from a required
  replacement series is an error rather than silently kept.''',
  ['inputs', 'configurations', 'histories'],
  '''generated archives, start/end months, missing-month lists, replacement series and
  degree-one options, limits''',
  'no existing test assembles months (they need the network)',
  [G+'grace_input_months.py'],
  [('assembly and replacement', G+'grace_input_months.py')],
  'property-based testing with generated archives against a model assembly',
  'assembled series compared with a direct model'),

P('F03', 'Low-degree series files decode to one value per month at its date',
  '''Reading a satellite laser ranging or low-degree product (degree 2, 3, 4 and 5
  zonals, degree 2 order 1 and 2 terms, five-by-five fields) returns for every
  line the value, error, date and month number written there, in the documented units
  with the documented mean restored, for every file layout.  Weekly fields are combined into months with the documented weights,
  with no month duplicated, and values outside the file never appear.''',
  ['inputs', 'configurations'],
  'generated product files in each layout with gaps, special values and headers',
  'no existing test reads such a file (they need the network)',
  [G+'SLR/C20.py', G+'SLR/C30.py', G+'SLR/C40.py', G+'SLR/C50.py', G+'SLR/CS2.py',
   G+'read_SLR_harmonics.py'],
  [('product readers', G+'SLR'), ('weekly fields', G+'read_SLR_harmonics.py')],
  'property-based testing with generated product files',
  'decoded series compared with the generating description'),

P('F04', 'Geocenter series round trip between files, Cartesian and coefficients',
  '''Converting degree-one coefficients to Cartesian geocenter motion and back is the
  identity for every radius and value, and every geocenter product reader returns each
  record's coefficients, errors, date and month number as written.  Scaling, adding,
  subtracting, averaging and copying a series act on every coefficient and keep times,
  months and radius, and copies keep the uncertainties.''',
  ['inputs', 'configurations', 'histories'],
  'values, radii, product layouts, headers, gaps in months, operation sequences',
  'no existing test covers these readers offline',
  [G+'geocenter.py'], [('series container and readers', G+'geocenter.py')],
  'property-based testing: round trips and generated product files',
  'decoded series compared with the generating description'),

P('F05', 'Glacial isostatic adjustment models decode to the written rates',
  '''Reading a glacial isostatic adjustment model in any of the supported layouts
  returns every coefficient at its own degree and order in the documented
  normalisation and rate units, truncated to the requested limits, with the model's
  title and citation.  The layout of the file never changes the resulting field, and
  drift series made from the rates are linear in time and zero at the reference epoch.''',
  ['inputs', 'configurations'],
  'generated coefficients in each layout, degree and order limits, time series',
  'no existing test reads such a model',
  [G+'read_GIA_model.py'], [('layout parsers', G+'read_GIA_model.py')],
  'property-based testing with generated model files',
  'decoded field compared with the generating description, across layouts'),

P('F06', 'File names are parsed, filtered and de-duplicated by their metadata only',
  '''Level-2 and ICGEM-style file names yield the dates, centres, missions, release
  and versions they encode; the pattern compiled for a centre, release, product and
  mission matches exactly the names of that selection.  Reducing a list by date keeps, for
  every date span present, exactly the most recent version and never drops a date.''',
  ['inputs', 'configurations'],
  'generated file names over centres, releases, products, missions, dates, versions',
  'no existing test covers name parsing offline',
  [G+'utilities.py', G+'time.py', G+'read_GRACE_harmonics.py', 'scripts/make_grace_index.py'],
  [('patterns', G+'utilities.py:compile_regex_pattern'),
   ('de-duplication', G+'time.py:reduce_by_date')],
  'property-based testing with generated names',
  'parsed metadata compared with the generating description'),

P('R01', 'Regression recovers the model exactly and reports consistent statistics',
  '''Fitting a time series that is an exact combination of the requested terms
  returns those coefficients and a zero residual; for any data the fit is the (weighted or
  relative) least-squares solution, its residual is orthogonal to every term, and the
  fitted model plus residual is the data.  Errors, degrees of freedom, mean-square error,
  R-squared and information criteria equal their definitions.''',
  ['inputs', 'configurations'],
  'polynomial orders, cycles, extra terms, weights, irregular sampling, noise',
  'existing tests do not fit any time series',
  [G+'time_series/regress.py', G+'time_series/fit.py', G+'time_series/amplitude.py'],
  [('design matrix and statistics', G+'time_series/regress.py'),
   ('terms', G+'time_series/fit.py')],
  'property-based testing against numpy least squares',
  'solution and statistics compared with an independent least-squares solution'),

P('R02', 'Time series filters reproduce signals inside their model class',
  '''Piecewise regression, loess-type smoothing, Savitzky-Golay filtering, spectral
  analysis and amplitude/phase computation return exactly the generating signal when
  the series belongs to their model class (piecewise trend with breakpoint, polynomial plus cycles within the
  window, sinusoid of a given amplitude and phase).  Decompositions add up to the input, are
  linear in the data, and spectral peaks appear at the frequency of the input.''',
  ['inputs', 'configurations'],
  'break points, windows, orders, frequencies, sampling, phases',
  'existing tests do not cover these filters',
  [G+'time_series/piecewise.py', G+'time_series/smooth.py',
   G+'time_series/savitzky_golay.py', G+'time_series/lomb_scargle.py',
   G+'time_series/amplitude.py'],
  [('filters', G+'time_series')],
  'property-based testing: exact reproduction and metamorphic relations',
  'outputs compared with generating signals and independent references'),

P('M01', 'Mascon grids and mascon values convert both ways without loss',
  '''Placing mascon values on a grid and extracting them again returns every mascon's
  value for each of the supported mascon products, on grids of any longitude
  convention, and a gridded field that is constant inside each mascon is reproduced by
  extract-and-place.  Inputs are left unchanged.''',
  ['inputs'],
  'mascon values, geometries, longitude conventions, partial cells',
  'no existing test covers mascons',
  [G+'mascons.py'], [('grid conversions', G+'mascons.py')],
  'property-based testing: round trip on generated mascon geometries',
  'round trips on generated geometries'),

P('O01', 'Ocean and land functions are complementary and respect the mask',
  '''The coefficients of the ocean function and the land function of any mask add up to
  a unit field, are the analysis of exactly that mask, and the fraction of area is the degree-zero
  term.  Land is the land, lake and island classes of the mask.  Simplifying turns
  exactly the land points with at most one of their four neighbours being land (longitudes
  being cyclic) into ocean.  Masks interpolated to other points select the land, the island
  and, as requested, the lake and ice shelf classes of the nearest node, and applying one to
  data masks those points in addition and changes no other value.''',
  ['inputs'],
  'generated masks and grids, degree limits',
  'existing tests skip without the mask data',
  [G+'ocean_stokes.py', G+'tools.py'],
  [('ocean function', G+'ocean_stokes.py'), ('mask interpolation', G+'tools.py:mask_oceans')],
  'property-based testing with generated mask files',
  'coefficients compared with an independent analysis of the generated mask'),

P('O02', 'The sea level equation conserves mass and is gravitationally consistent',
  '''For any ocean function and load the solution has support on the ocean only,
  conserves the total mass of load plus ocean change, is linear in the load and converges
  to the fixed point of the sea level equation with the given Love numbers, with the fluid
  and rotational options affecting only the documented terms.''',
  ['inputs', 'configurations'],
  'ocean masks, loads, Love numbers, rotation and degree options, iteration counts',
  'no existing test solves the equation',
  [G+'sea_level_equation.py'], [('pseudo-spectral iteration', G+'sea_level_equation.py')],
  'property-based testing against an independent pseudo-spectral iteration',
  'compared with an independent solver and its invariants'),

P('N01', 'File, hash and download utilities deliver exactly the remote content',
  '''Hashes identify contents exactly, path, name, date and URL helpers invert each other,
  unique file names never overwrite a file, and a download (HTTP, FTP or by product) writes
  byte-for-byte what the server sent, from FTP with the remote modification time, skips files
  whose hash is unchanged, or reports failure (missing file, error status, interrupted
  transfer, refused connection or login) without changing the local file.  Directory listings,
  metadata feeds and paginated granule searches yield exactly the matching entries with their
  own addresses and times in the documented order; file name patterns match exactly the files
  of the requested product, mission, solution and version; logins use the credentials of
  netrc, arguments, environment and prompt in this order until they are accepted.''',
  ['inputs', 'fault_sequences'],
  'contents, names, listings, metadata documents, server errors on a loopback server',
  'existing tests of downloads need the external network',
  [G+'utilities.py'], [('file and network helpers', G+'utilities.py')],
  'property-based testing against a loopback server',
  'contents compared byte for byte'),

P('N02', 'Synchronization programs mirror exactly the matching remote files',
  '''After a run of a synchronization program (COST-G, GFZ ISDC Level-2 and dealiasing, GRAZ,
  Swarm, CNES, PO.DAAC) the local archive holds every matching remote file byte for byte with
  its remote modification time and the requested permissions: files that are missing, older
  (or different, when comparing checksums) or clobbered are transferred and all others are
  untouched; listing transfers nothing.  Compressed or archived copies hold the same contents
  and times.  Index files name exactly the solutions of the product in order, with one version
  per date.  A second run transfers nothing, and a run after an interrupted transfer completes
  the archive.''',
  ['inputs', 'histories', 'fault_sequences'],
  'remote directories, local archives of earlier runs, options, interrupted transfers',
  'no existing test runs the programs',
  ['scripts/gfz_icgem_costg_ftp.py', 'scripts/gfz_isdc_grace_ftp.py',
   'scripts/gfz_isdc_dealiasing_ftp.py', 'scripts/itsg_graz_grace_sync.py',
   'scripts/esa_costg_swarm_sync.py', 'scripts/cnes_grace_sync.py', 'scripts/podaac_cumulus.py',
   G+'utilities.py'],
  [('transfer rule', 'scripts/gfz_isdc_grace_ftp.py:ftp_mirror_file'),
   ('index files', 'scripts/gfz_isdc_grace_ftp.py:gfz_isdc_grace_ftp')],
  'property-based testing against loopback servers, with fault injection',
  'model of the archive; contents, times and permissions of every file'),

P('C01', 'Command line conversions equal the library operations they name',
  '''Converting gridded files to harmonics and combining harmonics into grids with the
  command line programs gives, for every option, the same numbers as the library analysis
  and synthesis with those options, in the requested output format.
  An analysis program that fails reports its process and error and, when a log is requested,
  leaves one new log named as failed with its arguments and the traceback, no log of success,
  and the logs of earlier runs as they were.''',
  ['inputs', 'configurations', 'histories'],
  'input fields, formats, unit codes, grid intervals, smoothing and degree limits',
  'no existing test runs the programs',
  ['scripts/convert_harmonics.py', 'scripts/combine_harmonics.py'],
  [('conversion program', 'scripts/convert_harmonics.py'),
   ('synthesis program', 'scripts/combine_harmonics.py')],
  'property-based testing: differential between program and independent synthesis',
  'program outputs compared with reference computations'),

P('A01', 'Dealiasing programs summarise exactly the fields of the archived days',
  '''The programs reading the six- or three-hourly atmospheric and oceanic dealiasing
  product write, for the requested product only, one value per time of every archived day
  (geocenter and oblateness series, in archive order, readable by the geocenter class), the
  mean over all times of each mission month whose days are all archived (in every output
  format, with its dates and index, readable by the readers of the library), and the elastic
  uplift of every time of a month on the requested grid.  Days, hours and months crossing
  a year are attributed correctly, incomplete months are not written, files are written again
  exactly if the archive is newer or it is requested.''',
  ['inputs', 'configurations', 'histories'],
  'releases, products, archives, days and spans of months, formats, grids, repeated runs',
  'no existing test runs the programs',
  ['scripts/aod1b_geocenter.py', 'scripts/aod1b_oblateness.py',
   'scripts/dealiasing_monthly_mean.py', 'scripts/dealiasing_global_uplift.py',
   G+'geocenter.py'],
  [('degree one series', 'scripts/aod1b_geocenter.py'),
   ('oblateness series', 'scripts/aod1b_oblateness.py'),
   ('monthly means', 'scripts/dealiasing_monthly_mean.py'),
   ('uplift maps', 'scripts/dealiasing_global_uplift.py'),
   ('series reader', G+'geocenter.py:from_AOD1B')],
  'property-based testing with generated archives against a reference summary',
  'outputs of the programs compared with summaries of the generated fields'),

P('W01', 'Programs for static fields and monthly maps compute what they name',
  '''The static field program writes the average of the coefficients of the requested months
  (without the missing ones) and the root mean square of their errors in every format.  The
  map program writes one map per available month with its date: the synthesis from the minimum
  to the maximum degree and order, in the requested unit, grid and smoothing, of the months
  minus the static field or series mean, minus the drift of the postglacial rebound model
  since 2003.3 and minus the fields of the same months to be removed, with their mass spread
  over the ocean when requested.  File names identify centre, release, product, corrections,
  degree, order, smoothing, filter and month, and headers and attributes describe the analysis
  (centre, release, product, degrees, constants, replaced terms, units, input files).''',
  ['inputs', 'configurations'],
  'archives, ranges of months, degree and order limits, formats, models, removed fields, grids',
  'no existing test runs the programs',
  ['scripts/grace_mean_harmonics.py', 'scripts/grace_spatial_maps.py',
   G+'grace_input_months.py', G+'harmonics.py'],
  [('static field', 'scripts/grace_mean_harmonics.py'),
   ('monthly maps', 'scripts/grace_spatial_maps.py')],
  'property-based testing with generated archives against an independent computation',
  'outputs compared with a reference computation from the generated coefficients'),

P('W02', 'Regression programs fit every cell and label every term',
  """The regression programs read the maps of the requested months and give, at each cell and
  location, the least-squares coefficients, their 95% errors, the amplitudes and phases (0 to
  360 degrees) with errors, and the fit statistics of the polynomial or piecewise model with
  the requested cycles; periods of tidal aliasing are fit once for each mission with data.
  Every file (and row of the mascon summaries) carries the estimates of the term in its name
  whatever the order of the cycles, together with the range of months, and the input maps are
  unchanged.""",
  ['inputs', 'configurations'],
  'series of maps, cycles in any order, tidal aliasing periods, breakpoints, grids, formats',
  'no existing test runs the programs',
  ['scripts/regress_grace_maps.py', 'scripts/piecewise_grace_maps.py',
   'scripts/quick_mascon_regress.py', G+'time_series/regress.py', G+'time_series/piecewise.py'],
  [('polynomial regression', 'scripts/regress_grace_maps.py'),
   ('piecewise regression', 'scripts/piecewise_grace_maps.py'),
   ('summaries', 'scripts/quick_mascon_regress.py')],
  'property-based testing of the programs against an independent least-squares solution',
  'generated maps and series; every cell and every output compared with the reference'),

P('W03', 'Error maps and scaled maps follow from the residuals of the smoothed series',
  """The coefficient errors written by the programs are the root mean square of what remains of
  each coefficient series after the thirteen-month local fits of trend, annual and semi-annual
  terms; the error maps propagate them, divided by the root of the number of points, through
  the squared basis functions in the requested unit, degrees, orders, smoothing and grid.
  Scaled maps are the monthly maps of the analysis times the scaling factors, their leakage
  error is the scaling error times the ratio of the scaled to the original magnitude, and
  invalid cells of the factors stay invalid.  A second run, which reads the coefficient errors
  from the file of the first one, gives the same maps in every format.
  The attributes of the files describe the analysis they hold.""",
  ['inputs', 'configurations', 'histories'],
  'archives of thirteen months or more, formats, scaling files with holes, repeated runs',
  'no existing test runs the programs',
  ['scripts/grace_spatial_error.py', 'scripts/scale_grace_maps.py',
   G+'time_series/smooth.py', G+'spatial.py'],
  [('error maps', 'scripts/grace_spatial_error.py'),
   ('scaled maps', 'scripts/scale_grace_maps.py')],
  'property-based testing of the programs on generated archives against a reference',
  'coefficient errors and maps compared with an independent computation, also after a rerun'),

P('W04', 'Mascon series, kernels and reconstructed fields follow the least-squares fit',
  """The mass of each mascon in each month is the least-squares fit of the (smoothed) kernels of
  all mascons to the GRACE coefficients of the month, as mass or as geoid coefficients, times
  the area of the mascon, after the mean, GIA, removed files and earlier reconstructed fields
  are taken away and with the mass of kernels spread over the ocean when requested; its error
  propagates the coefficient errors through the same sensitivity kernel, and the area is that
  of a uniform layer of 1 cm.  The result does not depend on the solver.  Kernel files hold
  the coefficients (and the map) of those sensitivity kernels, and reconstructed files hold
  the kernel times the mass per area of every month, with the index listing each of them.""",
  ['inputs', 'configurations', 'histories'],
  'kernels, degrees and orders, solvers, fit methods, formats, archives, repeated runs',
  'no existing test runs the programs',
  ['scripts/calc_mascon.py', 'scripts/calc_sensitivity_kernel.py',
   'scripts/mascon_reconstruct.py', G+'ocean_stokes.py'],
  [('mascon series', 'scripts/calc_mascon.py'),
   ('kernels', 'scripts/calc_sensitivity_kernel.py'),
   ('reconstruction', 'scripts/mascon_reconstruct.py')],
  'property-based testing of the programs against a pseudo-inverse of the kernels',
  'all values of all outputs compared with an independent solution'),

P('W05', 'Degree-one solutions balance ocean mass, land water and dealiasing models',
  """The geocenter coefficients of every month solve the three equations that equate the ocean
  mass of the solution (GRACE degrees two and above, smoothed and without GIA and atmospheric
  jumps, plus the unknown degree one) with the mass the land exchanges with the ocean (uniform
  or as a sea level fingerprint) plus the difference of the ocean models, in a chosen frame
  given by k1; GIA and jumps are restored, the mean is removed, and iterations feed the
  solution back until it changes by less than 1e-6.  The result does not depend on the solver.
  Text files, components and iterations of the netCDF4 file, the copies and the log describe
  the same solution, with the dealiasing added in the second file, and their headers and
  attributes the processing (centre, release, smoothing, solver, models, replaced terms).  The Monte Carlo program
  gives that solution for no error, and its runs, mean and deviation follow the errors of the
  coefficients (computed, read, and of additional files) propagated through the solution.""",
  ['inputs', 'configurations', 'histories'],
  'archives, masks, ocean models, solvers, iterations, Love numbers, corrections, errors, runs',
  'no existing test runs the programs',
  ['scripts/calc_degree_one.py', 'scripts/monte_carlo_degree_one.py', G+'geocenter.py'],
  [('solutions', 'scripts/calc_degree_one.py'), ('errors', 'scripts/monte_carlo_degree_one.py')],
  'property-based testing of the programs against an independent solution of the equations',
  'all values of all outputs compared; random runs by bounds and variance'),

P('W06', 'Fingerprint and raster programs evaluate the fields they name everywhere',
  """The sea level program writes, for every field of a load file (single or a dated series, in
  every format), the solution of the sea level equation for the land-sea mask, Love numbers,
  frame, feedback and iterations asked for: zero on land, at the coordinates and dates of the
  inputs, with the mass of the load moved to the ocean.  The raster program gives the processed
  fields of every month of an archive (mean, filter, GIA, removed files, low degrees) at the
  centres of the cells inside the requested bounds of any projection, at geocentric latitudes,
  in the units asked for, masked exactly where the smoothed land function is at most 0.025.""",
  ['inputs', 'configurations'],
  'loads, masks, Love numbers, projections, spacings, archives, units, formats',
  'no existing test runs the programs',
  ['scripts/run_sea_level_equation.py', 'scripts/grace_raster_grids.py',
   G+'clenshaw_summation.py'],
  [('fingerprints', 'scripts/run_sea_level_equation.py'),
   ('raster grids', 'scripts/grace_raster_grids.py')],
  'property-based testing of the programs against direct sums and the library solution',
  'all cells compared; the writers of geoid_toolkit (not installed) are stand-ins'),

P('W07', 'Plotted series and printed summaries are those of the files',
  """The geocenter plots draw, for every solution and axis, the variations in millimetres (frame
  of k1 = 0.021, mean of the months until 176 removed) at the months asked for with breaks at
  missing months, the gap between the missions, and for Monte Carlo runs their mean, spread
  and largest deviation; one figure per centre.  The mascon plots print the trend, acceleration
  and change of AIC of the series with confidence intervals and draw every month relative to
  the first, with breaks, errors and labels as asked for, in one or in individual figures.  The
  printed resolution of a degree is the half wavelength or the diameter of the cap of equal
  area.""",
  ['inputs', 'configurations'],
  'series, missions, months, missing months, centres, models, runs, options',
  'no existing test runs the programs',
  ['scripts/geocenter_processing_centers.py', 'scripts/geocenter_ocean_models.py',
   'scripts/geocenter_compare_tellus.py', 'scripts/geocenter_monte_carlo.py',
   'scripts/quick_mascon_plot.py', 'scripts/calc_harmonic_resolution.py'],
  [('geocenter plots', 'scripts/geocenter_processing_centers.py'),
   ('mascon plots', 'scripts/quick_mascon_plot.py')],
  'property-based testing of the programs with recorded figures against the input series',
  'all lines, spans, labels and printed numbers; the drawing itself is not compared'),

P('P01', 'Grid helpers move and resample grids without changing values',
  '''Shifting a grid to another start longitude, wrapping longitudes, and interpolating or
  transforming grids keeps every value attached to its location: shifting is a rotation
  of columns and longitudes with the documented direction, wrapping changes longitudes by
  multiples of 360 only, and interpolation is exact at nodes and for linear fields.''',
  ['inputs'],
  'grids, start longitudes, cyclic points, orders of interpolation, masks',
  'existing tests do not cover these helpers',
  [G+'tools.py'], [('grid helpers', G+'tools.py')],
  'property-based testing: invariants under relocation',
  'values tracked by location'),

P('P02', 'Colour tables are reproduced as colour maps',
  '''Reading a palette table gives a colour map that has the colours of the table at its
  positions and interpolates linearly between them, for both colour models, with the
  colours for low, high and missing values of the table when requested, and the custom
  maps have the documented hues and saturations for any number of slices.  Either is then
  registered with matplotlib under its name.''',
  ['inputs'],
  'palette tables, colour models, special colours, formats, numbers of slices',
  'no existing test reads a palette',
  [G+'tools.py'], [('palette reader', G+'tools.py:from_cpt'),
   ('custom maps', G+'tools.py:custom_colormap')],
  'property-based testing with generated palette tables',
  'colours of the lookup table compared with a reference interpolation'),

P('P03', 'Map and movie programs draw the fields where they are, with the chosen scales',
  """Each map program draws one panel per file (each movie program one frame per date) in which
  every pixel has the value of the input field at the place of the pixel: scaled, with the field
  to be removed subtracted, interpolated with the chosen method, missing where the field is
  missing, whatever the file format, spacing, registration, direction of the latitudes or
  origin of the longitudes.  Range, levels, colour map, transparency, colour bar (ticks, labels,
  units, ends), contours (levels, colours, zero and mean contour), titles, panel labels, dates,
  grid lines and the printed minimum and maximum are those asked for, the delineations of
  coasts, ice sheets, glaciers and drainage basins of the chosen type are all drawn once, the
  base map lies under the map, and the figure or movie is written where, in the format,
  resolution and with the permissions asked for.""",
  ['inputs', 'configurations'],
  'fields, grids, formats, projections, regions, options of each of the 18 programs',
  'no existing test runs the programs',
  ['scripts/plot_global_grid_maps.py', 'scripts/plot_global_grid_3maps.py',
   'scripts/plot_global_grid_4maps.py', 'scripts/plot_global_grid_5maps.py',
   'scripts/plot_global_grid_9maps.py', 'scripts/plot_AIS_grid_maps.py',
   'scripts/plot_AIS_grid_3maps.py', 'scripts/plot_AIS_grid_4maps.py',
   'scripts/plot_QML_grid_3maps.py', 'scripts/plot_AIS_regional_maps.py',
   'scripts/plot_GrIS_grid_maps.py', 'scripts/plot_GrIS_grid_3maps.py',
   'scripts/plot_GrIS_grid_5maps.py', 'scripts/plot_AIS_GrIS_maps.py',
   'scripts/plot_global_grid_movie.py', 'scripts/plot_AIS_grid_movie.py',
   'scripts/plot_AIS_regional_movie.py', 'scripts/plot_GrIS_grid_movie.py'],
  [('global maps', 'scripts/plot_global_grid_maps.py:plot_grid'),
   ('polar maps', 'scripts/plot_AIS_grid_maps.py:plot_grid'),
   ('movies', 'scripts/plot_global_grid_movie.py:animate_grid')],
  'property-based testing of the programs with recorded figures and frames against a resampling model',
  'figures are recorded when saved; rendering itself, scale bars and the cubic values between grid points are not compared'),

P('J01', 'Notebook widgets always hold a valid and consistent selection',
  """After any history of selections the notebook widgets hold a dataset that the chosen center
  distributes: the releases and products offered are those of the center and release, the months
  offered are the available months of the selected product and are all selected after a change of
  the dataset, the maximum degree is that of the release and center, the order never exceeds the
  degree, and the Release-5 corrections (pole tide of GSM, atmospheric jumps) follow release and
  product until changed by hand.  The files selected by dialog or typed, the files to remove and
  their label, units index, output format and paths agree at all times.  The colour map widget
  returns the map, normalization, levels and labels of its controls.""",
  ['inputs', 'histories'],
  'histories of selections, archives, defaults, dialogs, colour ranges and maps',
  'the widgets are not exercised by any existing test',
  [G+'tools.py'], [('dataset widgets', G+'tools.py:widgets'), ('colour map widgets', G+'tools.py:colormap')],
  'stateful property-based testing of the widgets on stand-ins of ipywidgets and tkinter',
  'every widget after every step of the history; the drawing of the widgets is a stand-in'),
]

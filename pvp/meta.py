"""The properties: one record each, source of properties.jsonl, MANIFEST."""
PROPS = []


def p(id, title, statement, quant, why, files, mech, oracle, **kw):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant,
                      why=why, files=files, mech=mech, oracle=oracle, **kw))


# ---------------------------------------------------------------- sun
p('C01', 'Solar position is the SPA position of each instant',
  'For every instant, observer (latitude, longitude, altitude), pressure, '
  'temperature, delta-T and refraction setting, the default solar position '
  '(zenith, apparent zenith, elevation, apparent elevation, azimuth, '
  'equation of time) is the one defined by the published NREL SPA algorithm '
  'for that instant alone, and it agrees with an independent ephemeris '
  'within its stated accuracy.  Elevation and zenith are complementary, '
  'azimuth lies in [0, 360], and refraction never lowers the sun.',
  'all timestamps 1950-2050 (and SPA validity beyond), all places on Earth',
  'Tests compare a handful of fixed timestamps at one or two sites.',
  ['pvlib/spa.py', 'pvlib/solarposition.py'],
  [('spa.solar_position', 'pvlib/spa.py'),
   ('spa_python / get_solarposition', 'pvlib/solarposition.py')],
  'a scalar re-implementation of the SPA report and PyEphem')
p('C02', 'Solar position depends only on instant and place',
  'Solar position does not change when the same instants are written in '
  'another time zone, another datetime resolution, as a single timestamp or '
  'in another batch or order, nor with the calculation engine (numpy or '
  'numba, any thread count); results are always labelled with the '
  'timestamps that were passed in.  Time-zone-naive timestamps mean UTC, '
  'and pressure and altitude default from one another through the standard '
  'atmosphere.',
  'all batches of timestamps, zones, datetime units, engines',
  'Tests use one zone and one resolution at a time and never permute or '
  'split batches.',
  ['pvlib/solarposition.py', 'pvlib/spa.py', 'pvlib/tools.py'],
  [('get_solarposition', 'pvlib/solarposition.py'),
   ('_datetime_to_unixtime', 'pvlib/solarposition.py')],
  'metamorphic relations between calls (zone, unit, permutation, split, '
  'engine)', over=['inputs', 'configurations'])
p('C03', 'Alternative and analytical solar position formulas agree',
  'The PyEphem and Ephemeris methods give the same sun as the SPA within '
  'their stated accuracies at every instant and place, and the analytical '
  'expressions (equation of time, declination, hour angle, analytical '
  'zenith and azimuth, time at which the sun reaches a given altitude) '
  'equal their published formulas and are consistent with each other, '
  'including at the poles, at the zenith and across time zones with '
  'daylight saving.',
  'all timestamps, places, days of year',
  'Tests check single dates and sites.',
  ['pvlib/solarposition.py'],
  [('pyephem, ephemeris, *_spencer71, *_analytical, hour_angle, calc_time',
    'pvlib/solarposition.py')],
  'independent formulas and differential comparison between methods')
p('C04', 'Sunrise, transit and sunset are the right events of the local day',
  'For every time-zone-aware timestamp and every place where the sun rises '
  'and sets that day, the reported sunrise, transit and sunset are the '
  'instants at which the computed sun crosses the horizon (or is highest) '
  'during the local calendar day of the timestamp (or next/previous to it, '
  'for the ephemeris-based function), in the order sunrise < transit < '
  'sunset for moderate longitudes.  They are expressed in the time zone of '
  'the input, are missing (not wrong) on days without the event, and the '
  'different methods agree.',
  'all dates, zones (including daylight-saving switches), places',
  'Tests use a few dates and sites.',
  ['pvlib/solarposition.py', 'pvlib/spa.py'],
  [('sun_rise_set_transit_spa/_ephem/_geometric',
    'pvlib/solarposition.py'),
   ('spa.transit_sunrise_sunset', 'pvlib/spa.py')],
  'the solar position itself evaluated at the reported events, and PyEphem')
p('C05', 'Extraterrestrial radiation and Earth-Sun distance',
  'Extraterrestrial radiation equals the solar constant divided by the '
  'squared Earth-Sun distance (or the published Fourier/ASCE expression) for '
  'every day or timestamp, whichever supported type is used to give the day '
  '(day of year number or array, date, datetime, timestamp, index); all '
  'methods agree within 1 %.  Output type and index follow the input type.',
  'all dates, all date-like input types, all methods and solar constants',
  'Tests cover two dates.',
  ['pvlib/irradiance.py', 'pvlib/solarposition.py', 'pvlib/spa.py'],
  [('get_extra_radiation', 'pvlib/irradiance.py'),
   ('nrel_earthsun_distance, pyephem_earthsun_distance',
    'pvlib/solarposition.py')],
  'published expressions, PyEphem, and cross-type agreement')
# ---------------------------------------------------------- irradiance
p('C06', 'Plane-of-array geometry and irradiance closure',
  'The angle of incidence is the angle between the sun vector and the '
  'surface normal for every orientation, and beam, ground-reflected and '
  'total plane-of-array irradiance follow from it: beam = DNI times the '
  'positive cosine of incidence, ground = GHI times albedo times '
  '(1 - cos tilt)/2, diffuse = sky + ground, global = beam + diffuse, for '
  'every transposition model and with or without component output.  '
  'Dispatch by model name gives exactly what the named model function '
  'gives, and the open-water albedo follows its published formula.',
  'all tilts, azimuths, sun positions, irradiances, albedos, surface types, '
  'containers', 'Tests use a few fixed geometries.',
  ['pvlib/irradiance.py', 'pvlib/albedo.py'],
  [('aoi_projection, aoi, beam_component, poa_components, '
    'get_ground_diffuse, get_sky_diffuse, get_total_irradiance',
    'pvlib/irradiance.py'),
   ('inland_water_dvoracek', 'pvlib/albedo.py')],
  'vector geometry in 3-D and published formulas, element by element')
p('C07', 'Sky diffuse transposition models match their definitions',
  'Each sky-diffuse model (isotropic, Klucher, Hay-Davies, Reindl, King, '
  'Perez with every coefficient set, Perez-Driesse) returns its published '
  'expression for every orientation, sun position and irradiance, is never '
  'negative for physical input, and reduces to the horizontal diffuse '
  'irradiance on a horizontal surface where the model says so.  When '
  'components are requested they add up to the sky diffuse total returned '
  'without them.',
  'all orientations, sun positions (incl. horizon and night), irradiances, '
  'coefficient sets, containers',
  'Tests check tabulated values at a few sun positions.',
  ['pvlib/irradiance.py'],
  [('isotropic, klucher, haydavies, reindl, king, perez, perez_driesse',
    'pvlib/irradiance.py')],
  'scalar re-implementations of the papers, element by element')
p('C08', 'Horizontal irradiance recovered from plane-of-array irradiance',
  'Reverse transposition recovers the global horizontal irradiance that '
  'generated a plane-of-array value: feeding the result back through the '
  'forward decomposition and transposition reproduces the given '
  'plane-of-array irradiance within the stated tolerance, or the result is '
  'flagged as not converged / missing.  GTI-DIRINT output reproduces the '
  'measured plane-of-array irradiance within its convergence criterion or '
  'says how many points failed, and keeps beam, diffuse and global closed.',
  'all orientations, sun positions, irradiances, albedos',
  'Tests use one day of data and a single reference number.',
  ['pvlib/irradiance.py'],
  [('ghi_from_poa_driesse_2024, gti_dirint', 'pvlib/irradiance.py')],
  'round trip through the forward models')
p('C09', 'Decomposition of GHI keeps closure and follows published curves',
  'Every GHI decomposition model (Erbs, Erbs-Driesse, Orgill-Hollands, '
  'Boland, Louche, Campbell-Norman) returns DNI and DHI that follow its '
  'published diffuse-fraction curve, satisfy GHI = DHI + DNI cos(zenith), '
  'give zero DNI and DHI = GHI beyond the zenith limit, and never yield '
  'negative irradiance for physical input (apart from the offset of '
  'Louche\'s published polynomial at zero GHI).  Limits and thresholds passed by '
  'the caller are honoured, and the daily PAR diffuse fraction follows its '
  'published relation.',
  'all GHI, zenith, dates, limit settings, containers',
  'Tests sample 4-10 points.',
  ['pvlib/irradiance.py'],
  [('erbs, erbs_driesse, orgill_hollands, boland, louche, campbell_norman, '
    'diffuse_par_spitters', 'pvlib/irradiance.py')],
  'closure invariant plus scalar re-implementations')
p('C10', 'DISC and DIRINT family follow their published algorithms',
  'DISC, DIRINT and DIRINDEX beam estimates equal their published '
  'algorithms for every GHI series, zenith, pressure and dew point, are '
  'zero (or missing, with the sun below the horizon) beyond the zenith '
  'limit and never negative.  DIRINT depends on '
  'neighbouring samples only through the persistence index, which averages '
  'over the neighbours that exist, and DIRINDEX scales the clear-sky beam '
  'by the ratio of DIRINT estimates.',
  'all GHI time series, lengths (1, 2, many), gaps, humidity',
  'Tests use two-sample series.',
  ['pvlib/irradiance.py'],
  [('disc, dirint, dirindex', 'pvlib/irradiance.py')],
  'scalar re-implementation with the published coefficient table')
p('C11', 'Clearness indices and completion of irradiance components',
  'Clear-sky index and clearness index (plain and zenith-independent) equal '
  'their definitions inside the documented limits for every input including '
  'zero or missing irradiance.  The missing one of GHI, DHI and DNI is '
  'completed so that GHI = DHI + DNI cos(zenith), and beam derived from GHI '
  'and DHI is limited as documented near sunset and against clear-sky beam.',
  'all irradiances, zeniths, limit settings, containers',
  'Tests use a dozen points.',
  ['pvlib/irradiance.py'],
  [('clearsky_index, clearness_index, clearness_index_zenith_independent, '
    'dni, complete_irradiance', 'pvlib/irradiance.py')],
  'scalar models and the closure identity')
# ------------------------------------------------------------ clear sky
p('C12', 'Clear-sky models',
  'Ineichen, simplified Solis, Bird and Haurwitz clear-sky irradiance equal '
  'their published expressions for every sun position, turbidity, water '
  'vapour, aerosol, pressure and extraterrestrial irradiance; they are '
  'non-negative, are zero when the sun is below the horizon (missing for '
  'Bird when the air mass is missing), and keep '
  'GHI = DHI + DNI cos(zenith) where the model defines it so.',
  'all sun positions and atmospheric states, containers',
  'Tests sample one axis at a time.',
  ['pvlib/clearsky.py'],
  [('ineichen, simplified_solis, bird, haurwitz', 'pvlib/clearsky.py')],
  'scalar re-implementations and physical invariants')
p('C13', 'Clear-sky detection',
  'A sample is flagged clear exactly when it lies in at least one full '
  'window whose five published statistics all meet the thresholds, windows '
  'never straddle more than the data that exist, and the iterated scaling '
  'of the clear-sky curve is the documented least-squares factor.  A '
  'smooth measurement identical to the clear-sky curve is flagged clear, the returned components agree with the returned flags, and '
  'array and Series input give the same answer.',
  'all measured/clear-sky series, sampling intervals, window lengths, '
  'thresholds',
  'Tests use one recorded day and parameter tweaks.',
  ['pvlib/clearsky.py', 'pvlib/tools.py'],
  [('detect_clearsky', 'pvlib/clearsky.py')],
  'a plain per-window reference implementation')
p('C14', 'Turbidity and altitude lookups read the right grid cell and day',
  'Linke turbidity for a place comes from the grid cell that contains the '
  'place, scaled as stored, taken for the month of each timestamp or '
  'interpolated linearly between month middles (December joins January, '
  'leap years included); altitude lookup returns the value of the grid cell '
  'that contains the place.  Coordinates outside the globe are rejected.',
  'all places, timestamps, interpolation settings',
  'Tests need a data file that is missing here and check a few dates.',
  ['pvlib/clearsky.py', 'pvlib/location.py', 'pvlib/tools.py'],
  [('lookup_linke_turbidity', 'pvlib/clearsky.py'),
   ('lookup_altitude', 'pvlib/location.py')],
  'generated grids with known content and a direct interpolation model')
# ----------------------------------------------------------- atmosphere
p('C15', 'Air mass and pressure-altitude relations',
  'Every relative air mass model equals its published formula, is 1 (to the '
  'accuracy of the model) with the sun overhead, grows with zenith and is '
  'undefined below the horizon; absolute air mass scales it by pressure.  '
  'Pressure-from-altitude and altitude-from-pressure are inverse functions '
  'and monotone, and equal the standard atmosphere.',
  'all zeniths, models, pressures, altitudes, containers',
  'Tests use a fixed zenith list.',
  ['pvlib/atmosphere.py'],
  [('get_relative_airmass, get_absolute_airmass, pres2alt, alt2pres',
    'pvlib/atmosphere.py')],
  'published formulas, inverse and monotonicity laws')
p('C16', 'Moisture, aerosol and wind conversions',
  'Dew point and relative humidity conversions are inverse to each other '
  'for any coefficient set; precipitable water, broadband aerosol depth, '
  'Linke turbidity, Angstrom exponent and aerosol depth at a wavelength, '
  'and the wind power law equal their published formulas.  Angstrom '
  'exponent and aerosol depth at a wavelength are consistent, and invalid '
  'wind settings are rejected.',
  'all physical inputs, containers', 'Tests use a few values.',
  ['pvlib/atmosphere.py'],
  [('gueymard94_pw, rh_from_tdew, tdew_from_rh, bird_hulstrom80_aod_bb, '
    'kasten96_lt, angstrom_*, windspeed_powerlaw', 'pvlib/atmosphere.py')],
  'published formulas and inverse laws')
# ------------------------------------------------------ tracking, shading
p('C17', 'Single-axis tracking points at the sun within its limits',
  'For every sun position, axis orientation, ground cover and slope, the '
  'tracker rotation never exceeds its (symmetric or asymmetric) limits, '
  'minimises the angle of incidence when backtracking is off, and when '
  'backtracking is on avoids row-to-row shading without rotating more than '
  'necessary.  Surface tilt, surface azimuth and angle of incidence are '
  'those of the module normal at that rotation, and everything is missing '
  'when the sun is below the horizon.',
  'all sun positions, axis tilts/azimuths, limits, gcr, cross-axis slopes',
  'Tests check a dozen configurations.',
  ['pvlib/tracking.py', 'pvlib/shading.py'],
  [('singleaxis', 'pvlib/tracking.py')],
  '3-D vector model, optimality search over rotations, shade geometry')
p('C18', 'Tracker axis and slope geometry',
  'Surface orientation for a rotation equals the direction of the rotated '
  'module normal; the axis tilt computed for a slope is the slope of the '
  'terrain along the axis, and the cross-axis tilt is the angle of the '
  'plane containing the axes perpendicular to the axis, for every slope '
  'and axis direction.',
  'all slopes, axis azimuths, rotations', 'Tests use one example.',
  ['pvlib/tracking.py'],
  [('calc_surface_orientation, calc_axis_tilt, calc_cross_axis_tilt',
    'pvlib/tracking.py')],
  '3-D vector model')
p('C19', 'Shading geometry',
  'Projected solar zenith, row-to-row shaded fraction, ground and masking '
  'angles, averaged masking angle and its diffuse loss, and the '
  'partial-shading beam loss equal the geometry they describe for every '
  'row layout and sun position; shaded fractions and losses stay within '
  '[0, 1].',
  'all sun positions, row geometries, terrain slopes',
  'Tests use small tables.',
  ['pvlib/shading.py'],
  [('projected_solar_zenith_angle, shaded_fraction1d, ground_angle, '
    'masking_angle, masking_angle_passias, sky_diffuse_passias, '
    'direct_martinez', 'pvlib/shading.py')],
  '3-D/2-D ray geometry and numerical quadrature')
p('C20', 'Infinite-sheds bifacial irradiance',
  'Front, back and total plane-of-array irradiance of the infinite-sheds '
  'model obey the documented decomposition: components add up to the side '
  'totals, the total is front plus bifaciality-, shade- and '
  'transmission-weighted back, all terms are non-negative, and shaded '
  'fractions lie in [0, 1].  In the limit of sparse rows the front equals '
  'a single surface seeing open sky and unshaded ground, and exchanging the '
  'side and flipping the surface exchanges front and back.',
  'all geometries, sun positions, irradiances, models',
  'Tests check a few cases.',
  ['pvlib/bifacial/infinite_sheds.py', 'pvlib/bifacial/utils.py'],
  [('get_irradiance, get_irradiance_poa',
    'pvlib/bifacial/infinite_sheds.py')],
  'an independent 2-D row model with numerical integration')
p('C21', 'Row view factors',
  'View factors between module rows, ground and sky lie in [0, 1] and equal '
  'the exact two-dimensional crossed-strings geometry; each integrated '
  'factor is the average of the pointwise factor over the segment; sky and '
  'ground factors of a module add up to at most one.',
  'all rotations, gcr, heights, positions, row counts',
  'Tests use a few geometries.',
  ['pvlib/bifacial/utils.py'],
  [('vf_ground_sky_2d, vf_ground_sky_2d_integ, vf_row_sky_2d(_integ), '
    'vf_row_ground_2d(_integ)', 'pvlib/bifacial/utils.py')],
  'ray-angle geometry and quadrature')
p('C22', 'ANTS-2D bifacial irradiance',
  'The ANTS-2D model returns non-negative front and back irradiance whose '
  'components add up to the totals, whose direct part is DNI times the '
  'cosine of incidence on the unshaded part of the row, which tends to the '
  'isolated-row limit for sparse rows, which is unchanged by the mirror '
  'image of the scene, and whose segment averages equal the whole-row '
  'average.',
  'all rotations, sun positions, layouts, slopes, segment counts',
  'Tests check a few configurations.',
  ['pvlib/bifacial/ants2d.py', 'pvlib/bifacial/utils.py'],
  [('get_irradiance', 'pvlib/bifacial/ants2d.py')],
  'invariants, mirror symmetry, refinement and limit relations')
p('C23', 'Bifacial mismatch loss',
  'The bifacial power mismatch loss equals the published polynomial of the '
  'relative mean absolute difference with the fill-factor correction, for '
  'both published models and any caller-supplied polynomial.',
  'all mismatch values, fill factors, coefficient inputs',
  'Tests check the two built-in models at a few points.',
  ['pvlib/bifacial/loss_models.py'],
  [('power_mismatch_deline', 'pvlib/bifacial/loss_models.py')],
  'the published polynomial')
# --------------------------------------------------------------- modules
p('C24', 'Single-diode curves solve the single-diode equation',
  'Every point returned by the single-diode solvers (short circuit, open '
  'circuit, maximum power, intermediate points, current at a voltage, '
  'voltage at a current) satisfies the single-diode equation for the given '
  'parameters, whichever method is chosen, and the maximum power point is '
  'the maximum.  Current-from-voltage and voltage-from-current are inverse '
  'functions, scalar, array and Series inputs agree, and the ordering '
  '0 <= Vmp <= Voc, 0 <= Imp <= Isc holds.',
  'all physical parameter sets incl. ideal cells, zero light, vectors',
  'Tests use a few modules and precomputed curves.',
  ['pvlib/pvsystem.py', 'pvlib/singlediode.py'],
  [('singlediode, i_from_v, v_from_i, max_power_point',
    'pvlib/pvsystem.py'), ('lambertw methods', 'pvlib/singlediode.py')],
  'the equation residual and a high-precision (mpmath) solution')
p('C25', 'Explicit diode model, recombination and reverse breakdown',
  'The explicit diode-voltage model returns a current, voltage and power '
  'that satisfy the single-diode equation including the thin-film '
  'recombination and reverse-breakdown terms, and the gradients it returns '
  'are the derivatives of those values.  Its solvers (current at voltage, '
  'voltage at current, maximum power) return points on the same curve for '
  'every root-finding method, including reverse bias down to breakdown, and '
  'the closed-form maximum-power approximation stays near the exact one.',
  'all parameter sets, recombination and breakdown settings, methods',
  'Tests cover a few modules.',
  ['pvlib/singlediode.py'],
  [('bishop88, bishop88_i_from_v, bishop88_v_from_i, bishop88_mpp, '
    'estimate_voc, batzelis', 'pvlib/singlediode.py')],
  'equation residual, numerical derivative, mpmath root')
p('C26', 'Module parameters translate with irradiance and temperature',
  'The De Soto, CEC and PVsyst parameter translations return the reference '
  'parameters at reference irradiance and temperature and equal their '
  'published equations everywhere else, for each irradiance and temperature '
  'separately.  Zero irradiance gives zero photocurrent and the documented '
  'shunt resistance limit, never an error.',
  'all irradiances, temperatures, module parameters, containers',
  'Tests check one module at few conditions.',
  ['pvlib/pvsystem.py'],
  [('calcparams_desoto, calcparams_cec, calcparams_pvsyst',
    'pvlib/pvsystem.py')],
  'published equations, element by element')
p('C27', 'Module performance models',
  'SAPM, PVWatts DC, ADR efficiency, Huld and Batzelis module models and '
  'the SAPM effective irradiance equal their published equations for every '
  'irradiance and temperature, return rated values at reference conditions, '
  'and give zero (not an error or missing value) where the model says so '
  'at zero irradiance.',
  'all irradiances, temperatures, coefficients, containers',
  'Tests check a few points.',
  ['pvlib/pvsystem.py', 'pvlib/pvarray.py'],
  [('sapm, sapm_effective_irradiance, pvwatts_dc', 'pvlib/pvsystem.py'),
   ('pvefficiency_adr, huld, batzelis', 'pvlib/pvarray.py')],
  'published equations, element by element')
p('C28', 'Inverter models',
  'AC power from the Sandia, ADR and PVWatts inverter models equals the '
  'published efficiency curve, never exceeds the rated AC power, and turns '
  'into the night tare (or zero) below the start-up power; multi-input '
  'versions treat total power as documented and reduce to the single-input '
  'version for one input.  Where the ADR model applies voltage limits, '
  'power outside them is missing.',
  'all powers, voltages, inverter parameters, numbers of inputs, containers',
  'Tests check a handful of points.',
  ['pvlib/inverter.py'],
  [('sandia, sandia_multi, adr, pvwatts, pvwatts_multi',
    'pvlib/inverter.py')],
  'published equations, element by element')
p('C29', 'Fitting procedures recover the parameters that made the data',
  'Fitting noise-free data generated from a model returns parameters that '
  'reproduce the data: Sandia inverter, ADR module efficiency, incidence '
  'angle models and PVsyst temperature coefficients.  The fit does not '
  'depend on the order of the measurements.',
  'all generating parameter sets in the physical range',
  'Tests fit one or two data sets.',
  ['pvlib/inverter.py', 'pvlib/pvarray.py', 'pvlib/iam.py',
   'pvlib/ivtools/sdm/pvsyst.py'],
  [('fit_sandia', 'pvlib/inverter.py'),
   ('fit_pvefficiency_adr', 'pvlib/pvarray.py'),
   ('fit, convert', 'pvlib/iam.py')],
  'round trip through the forward model')
p('C30', 'Incidence angle modifiers',
  'Every incidence angle modifier (ASHRAE, physical with or without '
  'antireflective coating, Martin-Ruiz, SAPM, Schlick, interpolated) equals '
  'its published expression, is 1 at normal incidence, lies in the range '
  'the model documents, is zero for light from behind, and is the same for '
  'angles of opposite sign where the model says so.  Invalid parameters are '
  'rejected.',
  'all angles in [-180, 180], parameters, containers',
  'Tests use an angle list with default parameters.',
  ['pvlib/iam.py'],
  [('ashrae, physical, martin_ruiz, interp, sapm, schlick',
    'pvlib/iam.py')],
  'published expressions, element by element')
p('C31', 'Diffuse incidence angle modifiers',
  'Diffuse incidence angle modifiers (Martin-Ruiz, Schlick, and the Marion '
  'integration of any model over sky, horizon and ground) equal the '
  'solid-angle weighted average of the beam modifier over the region seen '
  'by the tilted surface, or the published closed form, for every tilt.  '
  'They lie in [0, 1] and are missing or the documented limit where the '
  'region is not seen.',
  'all tilts, models, parameters', 'Tests use a few tilts.',
  ['pvlib/iam.py'],
  [('martin_ruiz_diffuse, schlick_diffuse, marion_diffuse, '
    'marion_integrate', 'pvlib/iam.py')],
  'independent numerical quadrature over the hemisphere')
p('C32', 'Steady-state cell temperature models',
  'Every steady-state temperature model (SAPM cell and module, PVsyst, '
  'Faiman, radiative Faiman, Ross, NOCT-SAM, generic linear) equals its '
  'published equation for every irradiance, air temperature and wind speed; '
  'at zero irradiance the cell is at air temperature (apart from radiative '
  'loss), it warms with irradiance and does not warm with wind.',
  'all weather, parameters, containers', 'Tests check a few points.',
  ['pvlib/temperature.py'],
  [('sapm_cell, sapm_module, sapm_cell_from_module, pvsyst_cell, faiman, '
    'faiman_rad, ross, noct_sam, generic_linear', 'pvlib/temperature.py')],
  'published equations, element by element')
p('C33', 'Transient cell temperature models',
  'The Prilliman smoothing equals the exponentially weighted average of the '
  'preceding 20 minutes with the published wind and mass dependent rate, '
  'leaves sampling coarser than 20 minutes and the first sample unchanged, '
  'and preserves constants; the Fuentes model follows its published energy '
  'balance step by step, keeps air temperature at zero irradiance up to sky '
  'cooling, and depends only on past inputs.',
  'all time series, sampling intervals, gaps, parameters',
  'Tests use one or two series.',
  ['pvlib/temperature.py'],
  [('prilliman, fuentes', 'pvlib/temperature.py')],
  'plain-loop reference implementations and causality relations',
  over=['inputs', 'histories'])
p('C34', 'Conversion between thermal models',
  'Converting thermal parameters between the Faiman, PVsyst, NOCT-SAM and '
  'SAPM models through the generic linear model preserves predicted '
  'temperatures exactly where the models are equivalent and within the fit '
  'for SAPM, and converting there and back returns the original '
  'parameters.',
  'all thermal parameters, efficiencies, absorptances',
  'Tests convert one parameter set.',
  ['pvlib/temperature.py'],
  [('GenericLinearModel', 'pvlib/temperature.py')],
  'round trips and agreement of predicted temperatures',
  over=['inputs', 'histories'])
# -------------------------------------------------------------- spectrum
p('C35', 'Spectral mismatch models',
  'The First Solar, SAPM, Caballero, PVSPEC, JRC and Polo spectral factors '
  'equal their published polynomials for every technology and any '
  'caller-supplied coefficients, treat out-of-range water vapour and air '
  'mass exactly as documented, and reject unknown or conflicting module '
  'specifications.',
  'all atmospheric inputs, technologies, coefficients, containers',
  'Tests check one input per technology.',
  ['pvlib/spectrum/mismatch.py'],
  [('spectral_factor_*', 'pvlib/spectrum/mismatch.py')],
  'published polynomials, element by element')
p('C36', 'Spectral response, photon energy and mismatch integrals',
  'Converting spectral response to quantum efficiency and back is the '
  'identity; average photon energy and spectral mismatch equal the defining '
  'integrals, do not change when a spectrum is multiplied by a constant, '
  'and mismatch is one when the actual spectrum equals the reference.  '
  'Reference spectra keep the standard values at the standard wavelengths '
  'and interpolate linearly in between.',
  'all spectra, responses, wavelength grids, containers',
  'Tests use a few spectra.',
  ['pvlib/spectrum/irradiance.py', 'pvlib/spectrum/response.py',
   'pvlib/spectrum/mismatch.py', 'pvlib/tools.py'],
  [('sr_to_qe, qe_to_sr', 'pvlib/spectrum/response.py'),
   ('average_photon_energy, get_reference_spectra',
    'pvlib/spectrum/irradiance.py'),
   ('calc_spectral_mismatch_field', 'pvlib/spectrum/mismatch.py')],
  'defining integrals, inverse and scaling laws')
p('C37', 'SPECTRL2 spectral irradiance',
  'The SPECTRL2 spectra equal the published model for every atmosphere, '
  'sun position, tilt and albedo: tilted global is direct plus sky diffuse '
  'plus ground, all spectra are non-negative, and time-series input gives '
  'for each time what scalar input gives.',
  'all atmospheric inputs, geometries', 'Tests compare four spectra.',
  ['pvlib/spectrum/spectrl2.py'],
  [('spectrl2', 'pvlib/spectrum/spectrl2.py')],
  'scalar re-implementation and closure')
# ---------------------------------------------------------------- losses
p('C38', 'Soiling models',
  'The Kimber and HSU soiling losses follow the published accumulation '
  'recursions: loss grows between cleanings, is reset exactly when rain '
  'over the accumulation window exceeds the threshold or on a manual wash, '
  'stays in grace afterwards, never exceeds the maximum, and is indexed '
  'like the rain input.',
  'all rain histories, thresholds, time steps, wash dates',
  'Tests use one rain record.',
  ['pvlib/soiling.py'],
  [('hsu, kimber', 'pvlib/soiling.py')],
  'plain-loop reference implementations over rain histories',
  over=['inputs', 'histories'])
p('C39', 'Snow coverage and loss',
  'Snow coverage is one after a full-coverage snowfall, slides off by the '
  'published rate when it can, never leaves [0, 1], keeps its value when it '
  'cannot slide, and depends only on the past; DC loss is the covered '
  'fraction rounded up to whole strings, and the Townsend monthly loss '
  'equals its published formula.',
  'all snowfall/irradiance/temperature histories, time steps, parameters',
  'Tests use short hand-made series.',
  ['pvlib/snow.py'],
  [('fully_covered_nrel, coverage_nrel, dc_loss_nrel, loss_townsend',
    'pvlib/snow.py')],
  'plain-loop reference implementations',
  over=['inputs', 'histories'])
p('C40', 'Wavelet variability smoothing',
  'The wavelet variability model reproduces the published decomposition: '
  'the wavelet modes add up to the clear-sky index, each is scaled by the '
  'published variability ratio for the plant layout, cloud speed and time '
  'scale, a single-point plant is left unsmoothed as far as the model says, '
  'and moving or reordering the plant as a whole does not change the '
  'result.',
  'all clear-sky series, layouts, cloud speeds, time steps',
  'Tests use one short series.',
  ['pvlib/scaling.py'],
  [('wvm, latlon_to_xy', 'pvlib/scaling.py')],
  'plain reference implementation and invariances')
p('C41', 'System loss factors, wiring and transformer losses',
  'PVWatts losses combine as one minus the product of the remaining '
  'fractions, time-dependent losses combine the same way on any index with '
  'gaps filled as requested, percent wiring loss converts to the resistance '
  'that causes that loss at reference conditions, and the transformer '
  'output is the power whose no-load and load losses account for the '
  'input.',
  'all loss values, indices, currents, powers',
  'Tests use a few values.',
  ['pvlib/pvsystem.py', 'pvlib/transformer.py'],
  [('pvwatts_losses, combine_loss_factors, dc_ohms_from_percent, '
    'dc_ohmic_losses', 'pvlib/pvsystem.py'),
   ('simple_efficiency', 'pvlib/transformer.py')],
  'definitions and energy balance')
p('C42', 'Fitted diode models reproduce the curves they were fitted to',
  'Single-diode fits (De Soto, De Soto-Batzelis, PVsyst IEC 61853, Sandia '
  'simple) applied to data generated from a known single-diode model return '
  'parameters whose model reproduces the given specifications or curve.  '
  'The De Soto fit satisfies its defining equations at the specified '
  'points.',
  'all physical parameter sets', 'Tests fit a few modules.',
  ['pvlib/ivtools/sdm/desoto.py', 'pvlib/ivtools/sdm/pvsyst.py',
   'pvlib/ivtools/sde.py'],
  [('fit_desoto, fit_desoto_batzelis', 'pvlib/ivtools/sdm/desoto.py'),
   ('fit_pvsyst_iec61853_sandia_2025', 'pvlib/ivtools/sdm/pvsyst.py'),
   ('fit_sandia_simple', 'pvlib/ivtools/sde.py')],
  'round trip through the forward model')
p('C43', 'IV-curve utilities',
  'Rectifying an IV curve returns it sorted by voltage with duplicates '
  'averaged, non-negative and without missing points; the ASTM E1036 '
  'parameters of a smooth curve are its short-circuit current, open-circuit '
  'voltage and maximum power point, independent of the order of the '
  'points.',
  'all point sets with duplicates, noise-free curves, orders',
  'Tests use a few arrays.',
  ['pvlib/ivtools/utils.py'],
  [('rectify_iv_curve, astm_e1036', 'pvlib/ivtools/utils.py')],
  'naive reference and the generating curve')
# ---------------------------------------------------------------- system
p('C44', 'PVSystem and Array do what their model functions do',
  'Every PVSystem and Array method returns exactly what the underlying '
  'model function returns for that array\'s own orientation, parameters, '
  'temperature model and string layout; a system of several arrays returns '
  'one result per array in order, each as if the array were alone, and a '
  'single-array system returns the bare result.  Voltages scale with '
  'modules per string, currents with strings, powers with both, and '
  'mismatched numbers of inputs are rejected.',
  'all arrays, mounts, models, numbers of arrays, weather',
  'Tests mostly mock the functions.',
  ['pvlib/pvsystem.py'],
  [('PVSystem, Array, FixedMount, SingleAxisTrackerMount',
    'pvlib/pvsystem.py')],
  'direct calls of the model functions, array by array',
  over=['inputs', 'configurations'])
p('C45', 'ModelChain equals the explicit composition of its models',
  'Running a model chain on weather gives, at every stage (solar position, '
  'air mass, incidence, plane-of-array, spectral and incidence losses, '
  'effective irradiance, cell temperature, DC, wiring and system losses, '
  'AC), exactly what calling the selected model functions by hand gives, '
  'for every selectable model, fixed or tracking mounts, and any number of '
  'arrays.  Optional weather columns (albedo, precipitable water, cell or '
  'module temperature, missing components) are used as documented when '
  'present and defaulted when absent.',
  'all model selections, systems, weather tables',
  'Tests fix one system and mock most steps.',
  ['pvlib/modelchain.py', 'pvlib/pvsystem.py', 'pvlib/location.py'],
  [('ModelChain.run_model and the prepare/run helpers',
    'pvlib/modelchain.py')],
  'a hand-written pipeline of public model functions',
  over=['inputs', 'configurations'])
p('C46', 'ModelChain runs are independent of history and of each other',
  'The result of a run depends only on the chain configuration and the '
  'data of that run: repeating, interleaving other data or other entry '
  'points, or mixing containers never changes it.  The caller\'s weather, '
  'system, arrays and location are never modified, chains sharing a system '
  'do not influence each other, and row order or subsetting of the weather '
  'only reorders or subsets the results (apart from time-dependent '
  'models).',
  'all sequences of runs on one or several chains',
  'Tests run a fresh chain once.',
  ['pvlib/modelchain.py', 'pvlib/pvsystem.py'],
  [('ModelChain.run_model, run_model_from_poa, '
    'run_model_from_effective_irradiance', 'pvlib/modelchain.py')],
  'stateful sequences compared with fresh single runs',
  over=['histories'])
p('C47', 'ModelChain entry points and model inference agree',
  'Starting a model chain from plane-of-array or from effective irradiance '
  'taken from a full run reproduces the full run\'s DC and AC results; '
  'inferred models are those determined by the available parameters, equal '
  'to naming them explicitly, and missing or ambiguous parameters or '
  'weather columns are rejected with an error.  Passing one table, a list '
  'or a tuple of tables is equivalent where allowed and rejected where '
  'not.',
  'all systems, weather, entry points, containers',
  'Tests check individual systems.',
  ['pvlib/modelchain.py'],
  [('run_model_from_poa, run_model_from_effective_irradiance, infer_*',
    'pvlib/modelchain.py')],
  'differential comparison between entry points and selections',
  over=['inputs', 'configurations'])
p('C48', 'Location methods and time zones',
  'A location gives the same solar position, clear-sky, air mass and '
  'sunrise/sunset results as the underlying functions called with its '
  'coordinates, and its time zone given as name, tzinfo, offset or number '
  'denotes the same offset, invalid ones being rejected.  Locations built '
  'from TMY and EPW metadata have the file\'s coordinates, altitude and '
  'zone.',
  'all coordinates, zones, times, model choices',
  'Tests use Tucson.',
  ['pvlib/location.py'],
  [('Location', 'pvlib/location.py')],
  'direct calls of the underlying functions',
  over=['inputs', 'configurations'])
# -------------------------------------------------------------------- io
p('C49', 'Typical-year file readers (TMY2, TMY3, EPW)',
  'Reading a TMY2, TMY3 or EPW file returns every value of the file in the '
  'documented unit and column, one row per record, with timestamps in the '
  'file\'s fixed offset and the documented interval labelling, including '
  'hour 24, leap days and coerced years.  Metadata equals the header.',
  'all well-formed files', 'Tests read bundled files.',
  ['pvlib/iotools/tmy.py', 'pvlib/iotools/epw.py'],
  [('read_tmy2, read_tmy3', 'pvlib/iotools/tmy.py'),
   ('read_epw', 'pvlib/iotools/epw.py')],
  'write-then-read of generated files')
p('C50', 'Measurement network file readers',
  'Reading SURFRAD, SOLRAD, CRN, SRML, MIDC and BSRN files returns every '
  'value in its documented column, with the documented missing-value codes '
  'turned into missing values and nothing else, quality flags kept, and '
  'each row stamped with the instant the file gives (local standard time, '
  'UTC, end-of-day 2400 rollover).',
  'all well-formed files', 'Tests read one sample file per network.',
  ['pvlib/iotools/surfrad.py', 'pvlib/iotools/solrad.py',
   'pvlib/iotools/crn.py', 'pvlib/iotools/srml.py',
   'pvlib/iotools/midc.py', 'pvlib/iotools/bsrn.py'],
  [('read_surfrad, read_solrad, read_crn, read_srml, read_midc, read_bsrn',
    'pvlib/iotools/')],
  'write-then-read of generated files')
p('C51', 'Satellite and reanalysis file readers',
  'Reading PSM4, PVGIS (hourly and TMY, JSON/CSV/EPW), CAMS and '
  'SolarAnywhere files returns every value in its documented column and '
  'unit, stamped with the instants and time zone the file declares; mapping '
  'of variable names only renames columns, and different formats of the '
  'same data agree.',
  'all well-formed files', 'Tests read one sample file each.',
  ['pvlib/iotools/psm4.py', 'pvlib/iotools/pvgis.py',
   'pvlib/iotools/sodapro.py', 'pvlib/iotools/solaranywhere.py'],
  [('read_nsrdb_psm4, read_pvgis_hourly, read_pvgis_tmy, read_cams, '
    'read_solaranywhere', 'pvlib/iotools/')],
  'write-then-read of generated files')
p('C52', 'Web data clients ask for what was asked and return what came',
  'Every data-download function sends the coordinates, period, variables '
  'and options the caller gave in the form the service documents, returns '
  'the table and metadata contained in the response (units converted and '
  'columns renamed as documented, timestamps time-zone aware), and turns a '
  'service error into an exception carrying the service message, never '
  'into data.',
  'all arguments, response payloads, error responses',
  'Network tests are skipped; most clients are untested here.',
  ['pvlib/iotools/'],
  [('get_* functions', 'pvlib/iotools/')],
  'a stub HTTP layer that records requests and serves generated payloads',
  over=['inputs', 'fault_sequences'])
p('C53', 'PAN/OND files and SAM module/inverter databases',
  'Reading a PVsyst PAN/OND file returns the nested structure and every '
  'value with its type, however deep the sections are nested; reading a '
  'SAM parameter table returns every device as a column under its '
  'normalised unique name with every parameter value of its row.',
  'all well-formed files', 'Tests read two files and the bundled tables.',
  ['pvlib/iotools/panond.py', 'pvlib/pvsystem.py'],
  [('read_panond', 'pvlib/iotools/panond.py'),
   ('retrieve_sam', 'pvlib/pvsystem.py')],
  'write-then-read of generated files')
p('C56', 'pvfactors interface',
  'The bifacial pvfactors wrapper returns exactly what the pvfactors engine '
  'returns for the same scene - front and back, incident and absorbed, of '
  'the requested row - whatever containers or number types hold the inputs, '
  'with absorbed irradiance reduced by the stated face reflectivity, only '
  'angles relative to the row axis mattering, and rows lying flat receiving '
  'global horizontal irradiance.',
  'all row arrays, suns, irradiances, options, containers, integer inputs',
  'Tests check one two-point example.',
  ['pvlib/bifacial/pvfactors.py'],
  [('pvfactors_timeseries', 'pvlib/bifacial/pvfactors.py')],
  'the engine driven directly as reference; metamorphic relations')
# ----------------------------------------------------------- cross-cutting
p('C54', 'Element independence, containers and untouched arguments',
  'Model functions documented for numeric input treat every element on its '
  'own: scalar, array and Series input (any index, including unordered or '
  'duplicated) give the same numbers, reordering or subsetting the input '
  'reorders or subsets the output, and a missing value affects only its own '
  'element.  No function modifies its arguments or module-level tables, and '
  'repeated calls give identical results.',
  'all numeric model functions, containers, permutations, NaN positions',
  'Tests use scalars or one container and never check the arguments.',
  ['pvlib/'],
  [('all public numeric functions', 'pvlib/')],
  'metamorphic relations between calls',
  over=['inputs', 'histories'])
p('C55', 'Deprecation machinery preserves behaviour',
  'A deprecated function, class or renamed keyword behaves exactly as its '
  'replacement, emits exactly one deprecation warning naming the '
  'alternative, and rejects calls that pass both old and new names; '
  'non-deprecated calls do not warn.',
  'all call signatures', 'Tests check one function.',
  ['pvlib/_deprecation.py'],
  [('deprecated, renamed_kwarg_warning', 'pvlib/_deprecation.py')],
  'generated functions and calls compared with the undecorated function')

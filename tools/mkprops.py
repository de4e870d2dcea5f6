import json
def P(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    return d
G='shipgrav/grav.py';I='shipgrav/io.py';N='shipgrav/nav.py';U='shipgrav/utils.py'
L=[]
L.append(P('G01','Latitude and free-air corrections equal the published closed forms',
 'For every latitude the theoretical gravity returned is the WGS84 (Somigliana) normal gravity in mGal, and for every latitude and height the free-air term is the second-order formula (or its free-water variant when asked for). Both are evaluated sample by sample, with the shape of the input, and are the same at +lat and -lat.',
 ['inputs'],'all latitudes, heights, array lengths and both free_water settings','Tests look at one sample with height 0, where the free-air formula is trivially 0; normal gravity is never compared with anything.',
 [G],[('wgs_grav','grav.py wgs_grav'),('free_air_second_order','grav.py free_air_second_order')],['return values of the two public functions']))
L.append(P('G02','Longman tide: right value for every place, instant and altitude',
 'For every longitude, latitude, altitude and UTC instant (to the whole second), the tidal effect equals the sum of the lunar and solar vertical terms of Longman (1959) in mGal, and asking for the components returns that total and the two parts that add up to it. Each sample depends only on its own place and instant, and on the instant itself rather than on the time zone it is expressed in.',
 ['inputs'],'all positions, altitudes, timestamps (any time zone), series lengths; with and without components','One sample of one day is compared, one-sidedly (value + 0.0796 < 0.001 accepts any smaller value); altitude, components and other dates are never exercised.',
 [G],[('longman_tide_prediction','grav.py longman_tide_prediction'),('century/hour conversion','grav.py _convert_datetime_tidetime')],['returned total and components']))
L.append(P('G03','Eotvos correction equals Harlan\'s vertical acceleration for every track',
 'For every track (longitude, latitude, height series of at least 3 points), sampling rate and ellipsoid, the Eotvos correction at each interior sample is the down component of the moving platform\'s total acceleration minus the Earth\'s own centrifugal part, in mGal, with central-difference derivatives at that sampling rate. The result has one value per input sample, the two end values repeat their neighbours, and a platform at rest at sea level gets exactly zero.',
 ['inputs'],'all tracks, heights, sampling rates, ellipsoid axes, lengths >= 3','One sample of one 1 Hz track at zero height is checked, one-sidedly; height motion, other rates and the ends are not.',
 [G],[('eotvos_full','grav.py eotvos_full'),('center_diff','grav.py center_diff')],['returned array']))
L.append(P('G04','East/north velocities are the 10th-order derivative of the track',
 'For every position series of at least 11 points and every sampling frequency, the north and east velocities (returned in that order) are the 10th-order central Taylor derivative of latitude and longitude times the WGS84 radii of curvature and the sampling frequency. The first and last five samples are NaN and nothing else is, and a series shorter than 11 points or of unequal lengths is refused.',
 ['inputs'],'all tracks with length >= 11, all frequencies; refusal for every shorter or mismatched input','One meridional track; one sample checked with one-sided comparisons and the two outputs swapped by the test itself.',
 [N],[('latlon_to_EN','nav.py latlon_to_EN'),('tay10 impulse response','nav.py tay10')],['returned vn, ve']))
L.append(P('G05','Course, speed and cross/long rotation are exact frame changes',
 'For every velocity series the track heading is the clockwise angle from north (0 for north, 90 for east) and the speed is the length of the velocity vector. Rotating east/north accelerations by a heading gives the component along the heading as "long" and the component to starboard as "cross", preserving the vector\'s length for every heading.',
 ['inputs'],'all velocities, headings and accelerations','Two samples of a single due-north/due-east motion, compared one-sidedly.',
 [N],[('ENvel_to_course_heading','nav.py'),('rotate_acceleration_EN_to_cl','nav.py')],['returned heading, speed, cross, long']))
L.append(P('G06','Platform tilt: unit up-vectors from a bilinear tilt filter',
 'For every acceleration series the platform up-vectors are unit vectors, one column per sample, built from the arctangents of the cross and long tilts with the order of the two rotations alternating from sample to sample (cross rotation applied last on even samples). The tilts are the driving accelerations over gravity passed through the pre-warped bilinear transform of the platform\'s second-order response for the given period, damping and sampling interval, with missing (NaN) or switched-off samples contributing no drive.',
 ['inputs'],'all acceleration and gravity series (NaNs anywhere), switch flags, periods, dampings, sampling intervals','Only the first sample is asserted, where both tilts are zero.',
 [G],[('up_vecs','grav.py up_vecs'),('tilt filter','grav.py _tilt_filter'),('rotations','grav.py _calc_up_vecs')],['returned 3xN array']))
L.append(P('G07','Cross-coupling fit uses every long continuous segment, same operator',
 'For every set of series the regression table holds, for each continuous segment of at least 1000 samples and for no shorter one, the doubly differentiated, low-passed and end-trimmed monitors and the negated gravity, every column processed identically and rows staying aligned across columns, segments in time order. The fitted model is the ordinary least-squares regression of gravity on a constant and the five monitors, in the order ve, vcc, al, ax, lev.',
 ['inputs'],'all series lengths, all placements of time gaps (none, several, at the ends), all sample rates','One gap-free series without timestamps; two parameters compared one-sidedly.',
 [G],[('calc_cross_coupling_coefficients','grav.py')],['returned table and model']))
L.append(P('G08','1D Parker gravity uses the right wavenumbers and series for any line',
 'For every evenly spaced profile (odd or even length, listed from either end), observation level and density contrast, the anomaly is the fifth-order Parker series for relief about the mean depth, on the profile padded on each side by twice its length with its end value, continued upward from the mean depth to the observation level, in mGal with one value per input point. A flat profile gives zero and the anomaly scales linearly with the density contrast.',
 ['inputs'],'all profile lengths and spacings, topographies, levels, density contrasts','A single 10-point ramp compared one-sidedly with a tolerance larger than the value.',
 [G],[('grav1d_padded','grav.py grav1d_padded')],['returned anomaly']))
L.append(P('G09','2D Parker gravity uses the right wavenumbers and series for any grid',
 'For every grid (odd or even in either direction, square or not), spacing, density contrast, depth offset and expansion order, folded or not, the anomaly is the Parker series of that order for the relief about the mean surface continued upward by mean depth plus offset, in mGal with the shape of the input grid. Folding mirrors the grid in both directions before transforming and only the original quadrant is returned.',
 ['inputs'],'all grid shapes, spacings, contrasts, offsets, orders, both folding settings','One random 5x5 folded grid, first element compared one-sidedly.',
 [G],[('grav2d_folding','grav.py grav2d_folding')],['returned grid']))
L.append(P('G10','Layer gravity applies the exact spectral layer response',
 'For every density grid, spacing and pair of depths, the gravity of a uniform-thickness layer is the inverse transform of the density spectrum times 2*pi*G*(exp(-k z1)-exp(-k z2))/k, with the mean removed and k the wavenumber magnitude of each Fourier bin, in mGal and with the shape of the input. Opposite layers cancel: swapping the two depths negates the result, and it is linear in density.',
 ['inputs'],'all grid shapes (odd/even/non-square), spacings, depths','One random 5x5 grid, first element compared one-sidedly.',
 [G],[('grav2d_layer_variable_density','grav.py'),('bin wavenumbers','grav.py _kvalue')],['returned grid']))
L.append(P('G11','Crustal thickness is the tapered downward continuation of the residual',
 'For every residual line or grid, the thickness variation is the residual about its mean, sign-reversed, continued downward by the given depth with wavenumber-wise factor exp(k*zdown)/(2*pi*G*rho), passed unchanged below the long-wavelength cut, cosine-tapered between the two cuts and removed beyond the short-wavelength cut, in km. Asking for the reverse transform also returns the gravity recovered from that thickness, and a cut pair in the wrong order is refused.',
 ['inputs'],'all grid sizes, spacings, depths, densities and cut-off pairs; with and without the reverse transform','One seeded random line; first sample compared one-sidedly and the two modes compared with each other.',
 [G],[('crustal_thickness_2D','grav.py crustal_thickness_2D')],['returned thickness and recovered gravity']))
L.append(P('G12','Half-space cooling: temperature, subsidence and isotherms are consistent',
 'For every age or distance and depth, temperature is Tm*erf(z/(2*sqrt(k t))) and subsidence is the half-space formula; the isotherm-depth function returns the depth at which that temperature model takes the requested temperature, so the two functions are inverse to each other. Giving positions with a spreading rate and giving the corresponding ages produce identical results, symmetric about the axis.',
 ['inputs'],'all positions/ages, depths, temperatures between surface and mantle values, and material parameters','One point each, compared one-sidedly.',
 [G],[('therm_halfspace','grav.py'),('therm_Z_halfspace','grav.py')],['returned T, W, Z']))
L.append(P('G13','Plate cooling: ten-term series, mantle below the plate, nearest isotherm',
 'For every age or distance and depth, plate temperature is the linear geotherm plus the first ten terms of the cooling series inside the plate and the mantle temperature below it, and subsidence is the plate formula with its first three terms. The isotherm depth reported for each requested temperature and position is the depth-grid point whose model temperature is closest to it, for any number of temperatures and positions.',
 ['inputs'],'all positions/ages, depths, plate thicknesses, parameters, temperature lists and depth grids','One point each, compared one-sidedly except one isotherm.',
 [G],[('therm_plate','grav.py'),('therm_Z_plate','grav.py')],['returned T, W, isotherm depths']))
L.append(P('G14','Gaussian filter is a causal, symmetric-weight, unit-gain FIR',
 'For every series longer than the filter length L, output sample i is the weighted sum of the 2*floor(L/2)+1 most recent inputs (zeros before the start), with symmetric non-negative weights that sum to one, each proportional to exp(-((|d|-1)*6/L)^2/2) at offset d from the middle of the window. A series not longer than L is refused.',
 ['inputs'],'all series and all filter lengths L >= 1 (odd and even)','One spike with L = 10, one sample compared one-sidedly.',
 [U],[('gaussian_filter','utils.py'),('weights','utils.py _gaussian_coeffs')],['returned series']))
L.append(P('G15','Status words decode to exactly their sixteen flag bits',
 'For every 16-bit status word, each of the sixteen named flags is the character 0 or 1 of its own bit, most significant bit first, so the word can be rebuilt from the flags. A table of status words is given the sixteen flag columns, in flag order after its first column, row by row, whatever column holds the words; other input types are refused.',
 ['inputs'],'all words 0..65535, tables of any length with the status in any column','Four flags of one word; the table form is untested.',
 [U],[('decode_dgs_status_bits','utils.py')],['returned dict or table']))
L.append(P('G16','Converted meter configuration keeps every setting as valid TOML',
 'For every .ini file made of sections, comments, blank lines and key=value settings (TRUE/FALSE, TOML numbers, quoted or bare text, $-prefixed keys whose values hold no $, inline comments), the file written beside it with the .toml extension has the same sections, keys and values line for line: booleans lower-cased, numbers and quoted text untouched, bare text quoted, // comments turned into # comments. The input file is left unchanged.',
 ['inputs'],'all configuration files over that grammar, any number and order of lines','No test calls the converter.',
 [U],[('clean_ini_to_toml','utils.py')],['the written file, returned path']))
L.append(P('G17','Picked points always are the left-clicks minus the right-clicks',
 'After every sequence of mouse clicks over the time-series plot, the picked indices, longitudes and latitudes are equally long and are those of the data sample nearest in time to each left click, in click order, with each right click having removed the latest remaining pick. The plotted marks always show exactly the current picks, and a right click with nothing picked changes nothing.',
 ['histories'],'all finite sequences of left, right and other clicks, all data tables','No test touches the picker; the property is over click histories.',
 [U],[('cursor','utils.py _SnappingCursor')],['i_seg, x_seg, y_seg and the scatter artist'],[('pick lists','picked indices and coordinates','utils.py _SnappingCursor')]))
L.append(P('N01','Positions are the signed decimal degrees of each talker sentence',
 'For every log file of a supported ship, each sentence of the chosen talker yields, in file order, latitude and longitude in decimal degrees equal to whole degrees plus minutes/60, negative for S and W. A sentence whose position is blank yields a NaN position, and lines of other talkers contribute nothing.',
 ['inputs'],'all sentence contents (every degree/minute/hemisphere combination, blank positions), any interleaving with other lines','A few lines of one file per ship, first longitude compared one-sidedly; southern/eastern/blank cases mostly absent.',
 [I],[('coordinate parser','io.py _navcoords')],['lon, lat columns of read_nav']))
L.append(P('N02','Fix times are the exact UTC time the ship\'s format records',
 'For every supported ship format, the time of each fix is UTC and equals the date in the ship\'s log prefix combined with the time of day of the sentence (fraction of a second included), or the full log timestamp for the ships whose log carries it. The number of fractional digits (up to microseconds), leading zeros, day-of-year dates and lines interleaved between sentences do not matter.',
 ['inputs'],'all dates and times of day, fractions with 0 to 6 digits, all supported ships/talkers','First row of one file per ship; the fractions tested do not end in 0 and have two digits.',
 [I],[('clock time','io.py _clock_time'),('per-ship dates','io.py _navdate_*')],['time_sec, stamps columns of read_nav']))
L.append(P('N03','Navigation table: each distinct fix once, in time order, unaltered',
 'For every list of files (or a single path), the table returned has strictly increasing times, one row per distinct fix time in the files, and each row carries the position of the first fix logged at that time together with the UTC stamp of that time. Decimation by d keeps every d-th fix of each file and nothing else changes.',
 ['inputs','configurations'],'any number of files, repeated or out-of-order times within and across files, any decimation','Single short files with increasing times; only the first row is inspected.',
 [I],[('assembly','io.py read_nav')],['returned table']))
L.append(P('N04','Tracks crossing the antimeridian come back continuous',
 'For every track that jumps between +180 and -180 degrees, the returned longitudes are shifted by whole turns onto the side holding more points, so that they differ from the logged ones by 0 or 360 degrees at every fix outside isolated one-sample spikes, and adjacent fixes no longer jump. A track without longitude jumps is returned unchanged.',
 ['inputs'],'all tracks, crossing in either direction, any number of times','No test crosses the antimeridian.',
 [I],[('unwrapping','io.py _clean_180cross'),('detection','io.py read_nav')],['lon column of read_nav']))
L.append(P('R01','BGM files: counts, calibrated gravity and times for every line',
 'For every supported ship\'s BGM serial file each line gives one row, in file order, with the integer counts, the UTC time recorded on the line, and raw gravity equal to counts times the scale factor (the database\'s value for the ship, or the one supplied). For RGS files each line gives gravity, latitude, longitude and UTC time from their own fields; several files are concatenated in the order given with a fresh row index.',
 ['inputs'],'all counts, times, scale factors, files and lists of files','First row of one small file per ship.',
 [I],[('read_bgm_raw','io.py'),('read_bgm_rgs','io.py'),('per-ship parsers','io.py _bgmserial_*'),('scale factors','database.toml')],['returned table']))
L.append(P('R02','DGS laptop files: every documented field lands in its own column',
 'For every supported ship\'s laptop file each data line gives one row, in order, whose gravity, accelerations, status, monitors, position and UTC time are the values of the corresponding documented fields. For the prefixed format, lines that do not have exactly 26 fields are skipped and all others kept in order; several files are concatenated in the order given with a fresh row index.',
 ['inputs'],'all field values, any number of lines and files, any placement of malformed lines','First row and two columns of one file per ship.',
 [I],[('read_dgs_laptop','io.py'),('per-ship parsers','io.py _dgs_laptop_*')],['returned table']))
L.append(P('R03','DGS serial files: raw fields in place, monitors scaled exactly once',
 'For every serial file each line gives one row, in order, whose columns are the documented fields, with the UTC time taken from the field or prefix in which that format records it. The four cross-coupling monitors are multiplied by 1e-5 when scaling is on and left as recorded when it is off, for every file of a list, and no other column is scaled.',
 ['inputs','configurations'],'all field values, ships, both scaling settings, any number of files','First row and two columns of one file per format with scaling on.',
 [I],[('read_dgs_raw','io.py'),('per-format parsers','io.py _dgs_raw_*')],['returned table']))
L.append(P('R04','Feed extraction returns every sentence of the requested feed',
 'For every data file and feed description, each line carrying the requested feed (first, last and every line in between) gives exactly one row, in file order, with its comma-separated fields under the names of the feed\'s format and the text before the tag kept; other lines give none. The tag may be given with or without its dollar sign, and a tag missing from the description or the data is refused.',
 ['inputs'],'any file contents and interleaving of feeds, any feed description','One file in which the feed is neither first nor last line; one row inspected.',
 [I],[('read_other_stuff','io.py')],['returned table and field info']))
L.append(P('R05','Every ship in the database is readable, every other is refused cleanly',
 'For every ship name, each reader either uses the parser, talker and scale factor belonging to that ship, or (unsupported ship and no user-supplied reading function) returns -999 without touching any file and without raising. A user-supplied reading function, talker or scale factor always takes precedence over the built-in one, and every ship listed for a reader in the shipped database is one that reader supports.',
 ['inputs','configurations'],'all ship names, all combinations of overrides','One unknown ship per reader; overrides are not tested.',
 [I,'shipgrav/database.toml'],[('dispatch','io.py read_nav, read_bgm_rgs, read_bgm_raw, read_dgs_laptop, read_dgs_raw'),('tables','database.toml')],['return value, which parser ran, files opened']))
L.append(P('F01','Processing functions never alter their inputs and have no memory',
 'Calling any computing function leaves the caller\'s arrays, tables and lists exactly as they were (except that the platform-tilt routine zeroes missing or switched-off accelerations in place, and decoding a status table adds the flag columns to it), and changes no package constant. The result therefore depends only on the arguments: the same arguments give the same result whatever was called before.',
 ['inputs','histories'],'all arguments, all earlier call sequences','Tests never look at the arguments again after a call and never call a function twice with different data.',
 [G,N,U],[('all computing functions','grav.py, nav.py, utils.py')],['arguments and module constants after the call; repeated calls']))
with open('/verif/properties.jsonl','w') as f:
    for d in L: f.write(json.dumps(d)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in L: jsonschema.validate(d,sch)
print(len(L), max(d['statement'].count('. ')+1 for d in L))

"""The properties: source of properties.jsonl and of MANIFEST.json (python -m gemcheck.manifest)."""
PROPS = []


def P(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      tech=tech, note=note, na=na))


CORE, CAT, CONV, PYX = 'gemlog/core.py', 'gemlog/gem_cat.py', 'gemlog/gemconvert.py', 'gemlog/parsers.pyx'
TRUST = ('Trusted: the abstract interpreter in /verif/gemcheck (loops summarised, callees inlined to a fixed depth), its '
         'tables of what numpy/pandas/obspy/os calls do, and that names are not rebound at run time. ')

P('C01', 'Raw logger files are never modified, renamed or deleted',
  'No operation of the package, on any input or option combination, writes to, truncates, appends to, renames or deletes a '
  'raw logger file it was given to read, or any file that it reads as input. Concatenation refuses to run when its output '
  'folder is its input folder.',
  ['inputs', 'configurations', 'fault_sequences'],
  'every entry point, every argument (paths, options), every outcome of the file-system calls',
  'The tests convert a few sample folders into fresh outputs; none of them passes equal or nested folders or looks at the '
  'inputs afterwards, and the raw data of a deployment cannot be recorded again.',
  [CORE, CAT, CONV, PYX],
  [('raw files opened for reading only', 'gemlog/parsers.pyx:parse_gemfile, gemlog/core.py:_read_SN, _read_with_pandas'),
   ('outputs composed from output-folder parameters', 'gemlog/core.py:convert, _write_hourly_files'),
   ('input/output equality test', 'gemlog/gem_cat.py:gem_cat')],
  'abstract interpretation with inlining; path-origin (taint) analysis of every file-system effect',
  TRUST + 'Decides, for every function as entry point, that no write effect has a path whose origin is a path also read.')

P('C02', 'Conversion never overwrites metadata or GPS tables of earlier runs',
  'When no names are given for the metadata and GPS tables, converting writes them to files in the metadata and GPS folders whose '
  'names carry the serial number and that did not exist when the conversion started; earlier files are never overwritten. '
  'Within one conversion each table goes to one file, created with a header and then appended to without repeating the header, GPS '
  'rows only into the GPS file and metadata rows only into the metadata file, for every block of input; the log of the '
  'command-line converter is appended to, never truncated.',
  ['histories', 'configurations', 'inputs'],
  'every sequence of conversions into the same folders, every serial number, every number of input blocks',
  'Tests convert once into empty folders, so that numbering, appending over several blocks and repeated runs are never seen.',
  [CORE, CONV],
  [('free file name search', 'gemlog/core.py:_make_filename'), ('append without header', 'gemlog/core.py:convert')],
  'dominance of writes by an existence test over path terms (abstract interpretation); effect order',
  TRUST + 'A file created by another process between the test and the write is out of scope.')

P('C03', 'Every documented raw format version is decoded with its own layout',
  'Files of format 0.8, 0.85, 0.85C, 0.9, 0.91 and 1.10 are accepted when folders are read and when a single file is converted, and any other version is rejected. Formats 0.85C and later '
  'store pressure differences, integrated exactly once, with a millisecond counter that wraps at 8192; 0.8 and 0.85 store '
  'pressure values that must not be integrated, with a counter that wraps at 65536. Wraps in both directions are undone, metadata '
  'and GPS columns keep the names and positions of the version (0.8 has no A2 and A3), and sample times are shifted by 8.93 ms exactly once.',
  ['inputs', 'configurations'],
  'every format version (including unknown ones) and every content of the file',
  'The tests hold sample files of a few versions and compare readers with each other on them; a branch for another version, or '
  'a jump in the direction the samples do not contain, is not reached.',
  [CORE],
  [('version dispatch', 'gemlog/core.py:_read_single, read_gem'), ('layout table', 'gemlog/core.py:_process_gemlog_data'),
   ('time corrections', 'gemlog/core.py:_time_corrections')],
  'partial evaluation per version by abstract interpretation; judgement of the value terms of the returned tables',
  TRUST + 'The numeric behaviour of pandas cumsum/diff is trusted; when unwrapping is not written as a count of jumps only its '
  'constants are judged.')

HUD, NET, AUX, XC, SGL = 'gemlog/huddle_test.py', 'gemlog/gem_network.py', 'gemlog/gemlog_aux.py', 'gemlog/xcorr.py', 'gemlog/gemconvert_single.py'

P('C04', 'No raw file is left out of a conversion silently',
  'Converting a folder considers every raw file that the selected numbers and serial number cover, block after block without gap or '
  'overlap, up to the largest number. Each of them either contributes its samples, metadata and GPS fixes to the output, or is named, '
  'with the reason, among the problems that the conversion returns and the command-line converter logs; only files without content '
  'are passed over.',
  ['inputs', 'fault_sequences', 'configurations'],
  'every folder content, every gap in the numbering, every kind of failure of any file',
  'A test folder holds a few good files; a file that fails in an unusual way in the middle of a long deployment is not there, and '
  'the loss shows only as missing data.',
  [CORE, CONV],
  [('blocks of file numbers', 'gemlog/core.py:convert'), ('per-file handlers', 'gemlog/core.py:_read_several, read_gem'),
   ('reporting', 'gemlog/gemconvert.py:convert_single_SN')],
  'interval algebra on loop bounds; exception-path completeness of handlers; data-flow of the problem list',
  TRUST + 'Whether the parser recovers every sample inside a file is not part of this property.')

P('C05', 'A rejected raw file leaves no trace in the output',
  'A raw file that is rejected while reading a block contributes nothing: no samples, metadata, GPS fixes or timing segment of it remain in '
  'what the block returns. A file in which the counter of the samples (after unwrapping) steps backwards, or jumps by more than '
  '1000 from one sample to the next, anywhere, is always rejected, whether or not GPS is required.',
  ['fault_sequences', 'inputs'],
  'every point at which reading a file can fail, every order of good and bad files',
  'The tests contain one rejected file each and look for the exception or the message, not for rows left behind.',
  [CORE],
  [('per-file transaction', 'gemlog/core.py:_read_several'), ('discontinuity test', 'gemlog/core.py:_read_several')],
  'effect ordering on exception paths: no rejection can follow a commit to the accumulated tables',
  TRUST + 'The rejecting condition is folded for counters with one step back or jump at the start, in the middle and at the end.')

P('C06', 'An interrupt always stops the program',
  'Pressing Ctrl-C while raw files are read, converted or concatenated ends the operation: no exception handler on the way swallows the '
  'interrupt, turns it into an ordinary error for the current file, or goes on with the next file.',
  ['schedules', 'fault_sequences'],
  'every instant at which the interrupt can arrive, in every entry point that reads raw files',
  'No test delivers a signal, and the point of arrival decides which handler sees it.',
  [CORE, CAT, CONV],
  [('handlers around file reading', 'gemlog/core.py:read_gem, _read_several, _read_single'), ('worker', 'gemlog/gemconvert.py:convert_single_SN')],
  'exception-handler reachability over the inlined call tree',
  TRUST)

P('C07', 'One serial number failing does not affect the others',
  'When the command-line converter processes several serial numbers, whatever makes one of them fail is caught in its own task and '
  'logged with that serial number, and cannot end the program or another task. Each selected serial number gets exactly one task; only '
  'excluded numbers, or numbers without an entry in a codes file that was given, are left out. Parallel tasks tolerate that another one '
  'creates an output folder first.',
  ['fault_sequences', 'schedules', 'configurations'],
  'every exception anything below the worker can raise; every interleaving of folder creation; every selection',
  'Tests convert one serial number at a time and do not call the command-line program with a failing one.',
  [CONV, CORE, 'gemlog/exceptions.py'],
  [('worker handlers', 'gemlog/gemconvert.py:convert_single_SN'), ('task list', 'gemlog/gemconvert.py:main'),
   ('folder creation', 'gemlog/core.py:convert'), ('exception classes', 'gemlog/exceptions.py')],
  'exception-escape analysis over the inlined call tree of the worker; shape of the task list',
  TRUST + 'A process killed from outside is out of scope.')

P('C08', 'The compiled parser decodes every line kind faithfully and safely',
  'Each complete data, GPS and metadata line of a raw file becomes exactly one row with its line type, its millisecond counter and each '
  'field in its own column; compact (lower-case) lines give the count difference and advance the previous sample\'s counter by 10 plus '
  'their offset, modulo 8192. Incomplete lines and other kinds of lines add no row and leave nothing behind in later ones. However long a '
  'file is and whatever bytes it holds, it is read to its end or refused, never cut short, and nothing is written outside the parser\'s buffers.',
  ['inputs'],
  'every raw file: every sequence of lines of every kind, length and byte content',
  'The tests parse a handful of well-formed sample files; truncated lines, extreme offsets and buffer limits do not occur in them.',
  [PYX, CORE],
  [('line loop', 'gemlog/parsers.pyx:parse_gemfile'), ('columns of the parsed table', 'gemlog/core.py:_read_with_cython')],
  'abstract interpretation of the Cython source with C integer types; buffer-bound and stale-value analysis per line kind',
  TRUST + 'That sscanf and fgets behave as documented is trusted.')

P('C09', 'Only physically possible GPS fixes are used',
  'Of the GPS lines of a raw file, exactly those are kept whose latitude is within 90 degrees and longitude within 180 degrees (neither 0 '
  'nor missing), whose lag is from 0 to 1000 ms, whose year is 2014 to 2040, month 1 to 12, day 1 to 31, hour, minute and whole second in '
  'range, and which name a time that exists. All other GPS lines are ignored by timing, positions and GPS tables alike.',
  ['inputs'],
  'every value, missing values included, of every GPS field',
  'The sample files hold a few corrupt fixes; the boundary values and combinations of every field cannot be sampled.',
  [CORE],
  [('whole-file filter', 'gemlog/core.py:_process_gemlog_data'), ('line filter', 'gemlog/core.py:_check_gps, _read_single (old formats)')],
  'constant propagation of boundary values through the extracted filter terms; data-flow from the filtered table',
  TRUST)

P('C14', 'Converted data carry the codes meant for their serial number',
  'Every trace of every block and output file carries the network, station and location codes given to the conversion, the station code '
  'falling back to the serial number exactly when it is empty. On the command line they are the codes in the row of the codes file whose '
  'serial number is the one being converted, each from its own column; a serial number without a row is not converted.',
  ['configurations', 'inputs'],
  'every codes file, every subset and order of serial numbers, every number of blocks and traces',
  'Tests convert a single logger, mostly without codes, so that exchanged columns, shifted lists or later blocks do not show.',
  [CONV, CORE],
  [('codes lookup and task list', 'gemlog/gemconvert.py:main'), ('argument list', 'gemlog/gemconvert.py:convert_single_SN'),
   ('trace header', 'gemlog/core.py:read_gem, convert')],
  'interprocedural data-flow from table cell to trace header; parallel-list alignment',
  TRUST)

P('C15', 'Command-line options do what the programs document',
  'Every option that a command-line program lists in its help is accepted in its short and its long form with the same effect, and what it '
  'sets reaches the input folder, serial numbers, output, format, length, process count, time span, filter, window or file it is documented for, '
  'and no other; a test run converts nothing. Options that are not given have the default that the help states.',
  ['configurations'],
  'every documented option of the seven programs, given or not',
  'Tests call the functions, or one program with one option; the option tables and their plumbing are not exercised.',
  [CONV, SGL, CAT, HUD, XC, NET],
  [('getopt programs', 'gemlog/gemconvert.py:main, gemconvert_single.py:main, gem_cat.py:main, huddle_test.py:main'),
   ('argparse programs', 'gemlog/xcorr.py:xcorr_all_terminal, calculate_direction_terminal; gemlog/gem_network.py:summarize_gps_terminal')],
  'partial evaluation of the option loop per option; data-flow from option to parameter; comparison with the printed help',
  TRUST + 'That a numeric value makes sense is not judged.')

P('C10', "Sample times come from the file's own GPS clock fit",
  'Each sample and metadata row is timed by the cubic polynomial fitted to the GPS fixes (time as a function of counter) of the raw file it '
  "lies in, from that file's first to its last sample, both included, or by a constant offset at the nominal 1.024 ms per count when GPS is "
  'not required and no fit is possible; samples outside any file get no time. A later file\'s counters (samples, metadata and GPS alike) are '
  'moved past those of the files before it by whole counter periods of its format, before the fit.',
  ['inputs', 'configurations', 'histories'],
  'every sequence of raw files, every format, every row',
  'The tests convert a few files of one format; a row timed by a neighbouring file, or a wrong counter period, differs from the truth by '
  'milliseconds to minutes that no test compares.',
  [CORE],
  [('fit per file', 'gemlog/core.py:_calculate_drift, _robust_regress'), ('counter alignment', 'gemlog/core.py:_read_several, _unwrap_counters'),
   ('application', 'gemlog/core.py:_apply_segments')],
  'judgement of the value terms of the fit, of the shift and of the row masks, with exact evaluation at the interval ends',
  TRUST + 'The numerical accuracy of the fit and its robustness to outliers are not judged.')

P('C12', 'Gaps stay gaps and glitches lose nothing else',
  'Converted traces are interpolated only between samples of one gap-free stretch: wherever successive sample times step back or by more than '
  '25 ms a new trace starts, also next to the first or last sample (where times overlap after a step back, the samples recorded first count). Samples without a time, repeated times and stretches too short for one '
  'output sample are left out without losing the rest. Each trace begins at its first interpolated sample, the hundredth of a '
  'second nearest to the start of its stretch, has its samples at whole hundredths of a second, 10 ms apart, and channel HDF, and every trace is returned.',
  ['inputs'],
  'every sequence of sample times',
  'The tests interpolate clean data or a single gap in the middle; gaps at the ends, several gaps, repeated times and tiny stretches are not sampled.',
  [CORE],
  [('breaking and interpolation', 'gemlog/core.py:_interp_time')],
  'abstract interpretation of the segmenting loop: break set, index ranges and trace headers as terms, evaluated exactly',
  TRUST + 'The spline itself is trusted.')

P('C11', 'Every sample of the span is written to exactly one file',
  'Converting writes every sample from t1 (by default the first whole second of the data) to t2 to exactly one output file, in any output '
  'format, also when it is the only sample of its piece. Files cover windows that end at multiples of the file length, each ending just before the next begins, '
  'and what remains when the raw files are used up is written too. Nothing after t2 is written, no raw file is read twice, and gaps between blocks of raw files are not filled.',
  ['inputs', 'configurations', 'histories'],
  'every set of raw files, span, file length and number of days per block',
  'The tests convert a few hours in one block; window edges, tails, blocks of days and spans that end inside a block are not sampled.',
  [CORE],
  [('window', 'gemlog/core.py:_write_hourlong_mseed, _trunc_UTCDateTime'), ('blocks and windows loop', 'gemlog/core.py:convert'),
   ('joining blocks', 'gemlog/core.py:_merge_gaps')],
  'loop conditions and carried values as terms, evaluated exactly at representative window positions; typestate of the stream (cut before written)',
  TRUST + 'obspy slice, trim, split and merge are trusted.')

P('C13', 'Resolution follows from serial number and gain',
  'Every serial number from 3 up belongs to exactly one hardware version and has its resolution: 7.362894e-08 V per count up to serial number 46 and '
  "7.275362e-08 V from 47 on, and in pascals that divided by the sensor's sensitivity of 45.13 uV/Pa at 7 V scaled to the batch's supply (3.373 V up to "
  "37, 3.1 V from 38). The low-gain setting in the raw file's configuration doubles both, no configuration line means high gain, and any other setting is "
  'refused. The header of data read carries these numbers, and a conversion puts the one of the unit asked for (1 for counts), or the one the user '
  'gives, in the calibration of every trace.',
  ['inputs', 'configurations'],
  'every serial number, gain setting and unit',
  'The tests read one or two serial numbers at high gain; a hole in the version table, a wrong batch limit or a dropped gain multiplies every '
  'pressure of a deployment by the same wrong factor, which nothing else reveals.',
  [CORE],
  [('version table and resolution', 'gemlog/core.py:get_gem_specs, __AVCC__, __gain__'), ('gain', 'gemlog/core.py:get_bitweight_info, read_gem'),
   ('calibration', 'gemlog/core.py:convert')],
  'abstract interpretation to terms, evaluated exactly for every serial number of the table and beyond, every gain setting and every unit',
  TRUST + 'That the published resolutions match the hardware is not judged.')

P('C23', 'Instrument responses match the gain and the resolution',
  'The response for high gain has twice the counts per volt (128000) of that for low gain (64000), any other gain is refused, and files given by the '
  'user are used instead of the standard ones; the sensor is its first stage and the overall sensitivity is the product of the stages at 0.05 Hz. '
  'Deconvolution and inventories use the response of the gain and files they are given, for every trace and every channel, also by default, and every '
  'call makes a fresh response. The resolution in pascals agrees with it.',
  ['inputs', 'configurations', 'histories'],
  'every gain, every combination of user files, every sequence of calls',
  'The tests only check that a response can be read once; a swapped file, a stage left out or one shared between calls changes amplitudes by a factor of two or more.',
  [NET, CORE],
  [('response', 'gemlog/gem_network.py:get_gem_response, _read_response, gemlog/data/response'), ('users', 'gemlog/gem_network.py:deconvolve_gem_response, make_gem_inventory')],
  'abstract interpretation; the gains of the shipped RESP files are read and the stage list and the sensitivity are evaluated with them',
  TRUST + 'The poles, zeros and filters of the shipped response files are not judged.')

P('C27', 'Converted files are named by what is in them',
  'A converted file is named after the trace in it: its start to the second as YYYY-MM-DDTHH_MM_SS, then network, station, location and channel, and the '
  'output format in lower case, separated by periods; a further trace starting in the same second gets its microseconds (six digits) after the seconds, so that none '
  'replaces another. A WAV file has the name given, or one of that form in the time format given. It holds the samples centred about zero and scaled to a largest '
  'value of one at the integer sampling rate of the trace, other rates are refused, constant data give zeros, and the trace is left as it was.',
  ['inputs', 'configurations'],
  'every start time, identifier, output format and number of traces per window',
  'The tests look for files by pattern and convert gap-free data; two stretches within one second, single-digit months or empty codes are not sampled.',
  [CORE],
  [('names', 'gemlog/core.py:_make_filename_converted, _write_hourlong_mseed'), ('WAV', 'gemlog/core.py:write_wav')],
  'abstract interpretation to string and array terms, evaluated exactly for sample moments, identifiers, formats and samples',
  TRUST + 'What obspy and scipy write under that name is trusted.')

P('C17', 'Concatenation keeps every reading',
  'Concatenating takes the raw files of the input folder and extension in order of number and puts each into exactly one output: files before the first with GPS '
  'data are left out, a file with GPS data starts a new output (numbered from 0000, under its serial number) unless the file before has none, every other file is '
  'appended to the open output, and with everything concatenated all go to one output 9999. Appending adds every line from the first reading on, unchanged and once, on a '
  'new line, to the end of the output. In the formats that store differences the first reading added is reduced by the last pressure of the file before, so '
  'that the pressure continues.',
  ['inputs', 'histories', 'configurations'],
  'every sequence of files with and without GPS data, every format, every header',
  'The test concatenates one folder and looks at no content; two files without GPS in a row, old formats, truncated files and a wrong offset are not sampled.',
  [CAT],
  [('choice of output', 'gemlog/gem_cat.py:gem_cat'), ('appending', 'gemlog/gem_cat.py:AppendFile, _first_data_line')],
  'abstract interpretation; the appended text is evaluated per format on a file with every kind of line, the transitions of the loop over files are extracted and '
  'explored exhaustively over the state (output open, GPS before, GPS now, counter)',
  TRUST + 'Files lying between two numbers, and mixed formats within one folder, are not judged.')

P('C21', "Renamed files carry their logger's own codes",
  "Renaming gives every trace of every input file the network, station and location that the station table holds for the serial number in the file's name; files of serial "
  'numbers not in the table are left out without stopping the rest. The new file lies in the output folder, in the requested format and named by the pattern filled with those codes, '
  'channel HDF, the format and the earliest start among its traces (year in four digits, month, day, hour, minute, second in two, day of year in three), and never replaces '
  'an earlier output of the same run. The table may be a file with or without a header line or a DataFrame with any row labels, and is left unchanged; its codes are text, blank network '
  'and location codes stay blank, and missing elevations become -9999.',
  ['inputs', 'configurations'],
  'every station table (file or DataFrame), every set of input files and every name pattern',
  'The tests rename one file with one table; tables without a header, with other row labels, numeric or blank codes, several traces per file and equal names of outputs are not sampled.',
  [NET],
  [('renaming', 'gemlog/gem_network.py:rename_files'), ('station table', 'gemlog/gem_network.py:_get_station_info')],
  'abstract interpretation to terms; table look-ups are read as relational queries (rows, column, condition) and judged as such, names are evaluated exactly for sample codes and moments',
  TRUST + 'What pandas makes of a CSV file is modelled for the options used here.')

P('C24', "Inventories describe each station's own equipment and place",
  'An inventory holds, for each network, station and location of the station table, exactly one channel: HDF at 100 samples per second, with its own codes, the coordinates of that logger '
  '(matched by serial number or by codes, whichever the coordinates have), its serial number as equipment and the response given or the default. Loggers without coordinates are left out, and so are stations '
  'and networks left with none. Channels span the times of their data widened by an hour at each end, or 1970 to 9999 if none are known; a station is at the mean of its channels and spans their times, a '
  'network spans those of its stations.',
  ['inputs', 'configurations'],
  'every station table and coordinate table, with and without times and missing loggers',
  'The tests build one small inventory and look at its size; two networks with the same station code, missing coordinates and coordinates by serial number are not sampled.',
  [NET],
  [('inventory', 'gemlog/gem_network.py:make_gem_inventory')],
  'abstract interpretation to object terms; the loops over networks, stations and locations and the look-ups in both tables are read as relational queries and judged',
  TRUST + 'What obspy writes for an inventory is trusted.')

P('C26', "GPS summaries give each logger's own position",
  'A GPS summary has one row for each serial number with a GPS file in the folders, included and not excluded, that has a fix left. For each folder the newest GPS file of exactly that serial number is used, '
  'only fixes from the start to the end given (inclusive) count, and then those further than five standard deviations (plus 1e-5 degrees) from the median are dropped repeatedly until none is. '
  'The row holds mean and standard error of the latitudes and longitudes, first and last time and number of the fixes left and, with a station table, the codes of that '
  'serial number, or blanks when it has none.',
  ['inputs', 'configurations'],
  'every set of GPS files, serial numbers, folders and time windows',
  'The tests summarise one folder; serial numbers that begin like another, files of several runs, time limits and outliers are not sampled.',
  [NET],
  [('reading', 'gemlog/gem_network.py:read_gps'), ('outliers', 'gemlog/gem_network.py:_remove_outliers'), ('summary', 'gemlog/gem_network.py:summarize_gps')],
  'abstract interpretation to terms; filters and look-ups are read as relational queries, windows and statistics are evaluated exactly on sample tables',
  TRUST + 'That fixes are accurate is not judged.')

P('C18', 'Lags between sensors are computed for every window and every pair of neighbours',
  'Data at least one window long, upsampled by the ratio given (whatever else is given; sample times are kept) and filtered between the two frequencies given, are cut into windows of the length given '
  '(defaults: 5 to 40 Hz, 5 s, no overlap), the first at the start and the last at the end of the data, evenly spaced, overlapping at least as much as asked and no more of them than that needs. '
  'For each window each sensor has its rms under its own code, each sensor and the next (the last with the first) the lag in seconds and the coefficient of the highest peak of the correlation of the first '
  'with the second within the largest shift given (default 1 s), and mean_coef is the mean of the coefficients. Every column has exactly one value for each window, t_mid being its middle and '
  'not-a-number standing for what a window lacks.',
  ['inputs', 'configurations'],
  'every data length, window length, overlap, set of sensors and combination of options',
  'The tests run one data set with one set of options; single windows, sensors that drop out for a window and options given without one another are not sampled.',
  [XC],
  [('windows and columns', 'gemlog/xcorr.py:apply_function_windows'), ('pairs', 'gemlog/xcorr.py:xcorr_function'), ('options', 'gemlog/xcorr.py:xcorr_one_day'), ('upsampling', 'gemlog/xcorr.py:upsample_stream')],
  'abstract interpretation to terms; limits of windows, names and values of results and option defaults are evaluated exactly from those terms on sample data, with correlation and interpolation left abstract; effects that grow columns are judged by their conditions',
  TRUST + 'The accuracy of the correlation, filter and interpolation themselves is not judged; formulas are compared on sample tables.')

P('C19', 'Backazimuth and slowness follow from the lags and the positions',
  'The slowness vector of each window is the least-squares solution for the lags of each sensor and the next, in the order of the lag table and without the redundant last pair, given the differences of '
  'their positions, which are found by network, station and location. Its length (s/km) and the direction the wave comes from (degrees clockwise from north) are added to the lag table, one value for each '
  'window. Positions are kilometres east and north of the mean longitude and latitude for an inventory, or the coordinates of the stream itself (for longitude and latitude relative to their centre, '
  'heights counted from zero), each under its own codes.',
  ['inputs'],
  'every array geometry, order of sensors and lag table',
  'The tests invert one array with the sensors in one order; sensors listed in another order than the positions, extra positions and streams with coordinates are not sampled.',
  [XC],
  [('inversion', 'gemlog/xcorr.py:invert_for_slowness'), ('positions', 'gemlog/xcorr.py:get_coordinates')],
  'abstract interpretation to terms; the columns added and the look-ups of positions are evaluated exactly from those terms for plane waves crossing sample arrays, the map projection left abstract',
  TRUST + 'The map projection is trusted; formulas are compared on sample arrays.')

P('C25', 'Noise spectra are of the model, scale and band asked for',
  "The Gem's self-noise is the square of the shipped amplitude spectrum (versions from 0.97 on) and the IMS noise ten to the power of the shipped low, medium or high curve, by whichever of its names "
  '(low or min, med or medium, high, hi or max, in any case) is given; other models, versions and types of spectrum are refused. The spectrum is that power (Pa^2/Hz), its square root (Pa/sqrt(Hz)) or '
  'ten times its logarithm (dB Pa/sqrt(Hz)) as asked, at the frequencies given or else those of the model. The noise is the power integrated between the two limits, in the same scale (Pa^2, Pa or dB Pa) and '
  'not-a-number if a limit is missing; type, units and limits are returned with them.',
  ['inputs', 'configurations'],
  'every model, version, type of spectrum, set of frequencies and limits',
  'The tests call each function once or twice with one type and compare one number.',
  [AUX],
  [('Gem noise', 'gemlog/gemlog_aux.py:gem_noise'), ('IMS noise', 'gemlog/gemlog_aux.py:ims_noise'), ('scales', 'gemlog/gemlog_aux.py:_noise_spectrum_helper')],
  'abstract interpretation to terms; the result and the conditions of every refusal are evaluated exactly from those terms for all models, types and kinds of limits on the shipped tables, interpolation and quadrature replaced by linear stand-ins',
  TRUST + 'Accuracy of the interpolation and of the integral is not judged.')

P('C29', 'File databases and channel statistics describe the files they are made from',
  'A database has one row for each file matching the pattern that can be read, in order of name: its name and, of its first trace, station, location, start, end, largest and smallest sample before any '
  'processing and the standard deviation above 0.5 Hz; files that cannot be read are left out without stopping the rest, and the whole table is saved if a name is given. Channel statistics give each station '
  'that has files strictly between the two times the lower and upper quartile of those standard deviations and, per hour of the period, the number of those files with any signal and of those between 0.5 and 20000 '
  'that last an hour within two seconds. Stations without such files are left out.',
  ['inputs'],
  'every folder of converted files and every period',
  'The tests make one database and never its statistics.',
  [AUX],
  [('database', 'gemlog/gemlog_aux.py:make_db'), ('statistics', 'gemlog/gemlog_aux.py:calc_channel_stats')],
  'abstract interpretation to terms; columns are judged by the state of the trace they are read from (order of in-place effects), selections and fractions are evaluated exactly on sample tables',
  TRUST + 'The filter itself is trusted.')

P('C30', 'Day-by-day processing uses all of the data asked for, and only those',
  'Of the files given, those that cannot be read are skipped and each trace of the others is known by its times and code; the codes used are those asked for, exactly or by pattern (all if none are given), '
  'without those excluded. The time asked for, limited to that of the data, is processed in consecutive pieces of at most a day, each beginning where the one before ended; every file that overlaps a piece is '
  'read, once, and the piece holds all of its data of the chosen codes and no others. The results of all pieces are put together in order, and an error loses that piece only.',
  ['inputs', 'configurations', 'fault_sequences'],
  'every set of files and codes, every period, and errors in any piece',
  'The tests process files of whole days with every code; part-day files, periods that begin within a day and files of several codes are not sampled.',
  [XC],
  [('pieces', 'gemlog/xcorr.py:loop_through_days'), ('codes', 'gemlog/xcorr.py:_check_input_IDs')],
  'abstract interpretation to terms; the lists of files, codes, starts and ends are evaluated exactly from the conditions and values appended to them for sample files, exception handling is judged by its regions',
  TRUST + 'Merging of traces by obspy is trusted.')

P('C16', 'Every program, exported name, documented call and name used exists',
  'Each command-line program named by the package starts an existing function that needs no argument, each name imported or exported by the package exists, and each call shown in the '
  'documentation is of an existing function that takes those arguments. No code path, error paths included, uses a variable, a function or an attribute of a module that does not exist or cannot have a value there, or '
  'calls a function of the package or of a library with arguments it does not take.',
  ['inputs', 'configurations'],
  'every statement of every module, on every path',
  'The tests execute few of the error paths and optional branches, and never start most programs; a name error there appears only when a user gets there.',
  ['gemlog/__init__.py', CORE, CAT, CONV, SGL, NET, AUX, XC, HUD],
  [('programs', 'setup.py'), ('exports', 'gemlog/__init__.py'), ('error paths', 'gemlog/gem_network.py:summarize_gps, gemlog/core.py:convert')],
  'scopes, imports and sets of possibly assigned variables computed from the syntax trees of all modules; calls are compared with the parameters of their targets, those of libraries in the versions installed',
  'Names reached only through getattr or through objects of unknown type are not judged; a variable that has a value on some path only is accepted.')

P('C28', 'Calls leave nothing behind but their results and output files',
  'No function exported by the package, nor the computation of lags and directions from files, changes a table, list, dictionary, array or stream it is given, except that the response is removed from the '
  'data given and directions are added to the lag table. Nothing is kept from one call to the next in module variables, caches or default arguments, and no setting of the process (working directory, environment, '
  'warning filters, handling of numeric errors, random state, options of libraries) is changed. What is returned and written depends neither on random numbers nor on the order in which the system lists files.',
  ['histories', 'inputs', 'schedules'],
  'every sequence of calls in one process, every argument object and every order of directory listings',
  'The tests call each function with fresh arguments, mostly once, on one file system; a changed argument, a remembered result or another listing order appears only in longer programs.',
  ['gemlog/__init__.py', CORE, CAT, CONV, NET, AUX, XC],
  [('tables given by the user', 'gemlog/gemlog_aux.py:calc_channel_stats, gemlog/gem_network.py:_get_station_info, gemlog/xcorr.py:invert_for_slowness'),
   ('listings', 'gemlog/core.py:convert, gemlog/gem_network.py:rename_files, read_gps, gemlog/gem_cat.py:gem_cat')],
  'flow-sensitive alias and effect analysis of all functions (which arguments and module variables each variable may share objects with), with summaries of calls to a fixpoint',
  'Objects stored inside objects are followed through lists and dictionaries written out or appended to, not through attributes; operations of other libraries are modelled by tables. The debug flag set by programs is excepted.')

P('C22', 'Documented arguments take effect and have their documented defaults',
  'Each argument documented for a function exported by the package, given by position or name, influences what the function returns, writes or prints beyond the checks that refuse it, and '
  'is handed on to exported functions that it calls and that take an argument of the same name. An argument that is not given has the default that its description states.',
  ['inputs', 'configurations'],
  'every documented argument of every exported function, given or not',
  'The tests call most functions with the same one or two arguments; an argument that is dropped on the way or replaced by a constant goes unnoticed.',
  [CORE, NET, AUX, CAT, XC],
  [('documented functions', 'gemlog/core.py:convert, read_gem; gemlog/gem_network.py; gemlog/gemlog_aux.py:make_db, gem_noise, ims_noise; gemlog/xcorr.py:get_coordinates')],
  'abstract interpretation to terms with every argument unknown; the arguments are searched in results, effects, their conditions and the arguments of calls; defaults are compared with the documentation',
  'What an argument does is judged by the other properties; here only that it does anything. Functions without a description of their arguments are left out.')

P('C31', 'Text readers give the rows the compiled reader gives, or refuse the file',
  'A raw file that the compiled reader cannot read, or whose format is too old for it, is read as text: each complete data, metadata or GPS line becomes one row with its own type, millisecond counter and '
  'fields; no other line, and no data line cut short, becomes one; lines of a kind this reader cannot decode (the compact data lines) are never passed over silently. A file without GPS is refused only if GPS is required, a file without '
  'content is told from a corrupt one, and a damaged line (stray characters, too many fields, cut short) does not cost the lines around it.',
  ['inputs', 'fault_sequences'],
  'every arrangement of lines of the raw formats in a file read without the compiled reader, with damage anywhere',
  'Files nearly always take the compiled reader; the tests reach the others with two or three whole files and compare no row.',
  [CORE],
  [('fallback', 'gemlog/core.py:_read_with_pandas, _read_single'), ('old formats', 'gemlog/core.py:_read_0_8_pd')],
  'abstract interpretation to terms per format; the table and the refusals of each text reader are folded from their terms for sample texts holding every kind of line, and compared with what the lines say',
  TRUST + 'The meaning of the pandas and numpy operations used is taken from those libraries.')

P('C34', 'Inadequate GPS refuses a file if required, and never sets its clock',
  'With GPS required, a raw file is used only if its fixes extend over at least half of its recording, a straight line through them (without outliers) leaves no step above 0.25 s, and the cubic fit of time against '
  'counter rests, without outliers, on 10 fixes or more that extend over at least half of the recording with residuals within 10 ms. An outlier is a fix farther from the fit than 4 standard deviations or, '
  'if there is none, than 10 ms; outliers are dropped and the fit repeated until none is left. If GPS is not required no file is refused for its GPS, and where the fit fails the nominal clock is set by the mean offset of the fixes, or by zero.',
  ['inputs', 'configurations', 'histories'],
  'every number, spread and accuracy of GPS fixes in a raw file, with and without the requirement',
  'The tests hold a few files with good GPS and one or two without; files near the limits, with outliers, steps or fixes in a part of the file only are not sampled.',
  [CORE],
  [('refusals', 'gemlog/core.py:_calculate_drift, _detect_step'), ('outliers', 'gemlog/core.py:_robust_regress'), ('requirement', 'gemlog/core.py:read_gem, _read_several')],
  'abstract interpretation to terms; the conditions of the refusals and the coefficients returned are folded for sample sets of fixes on each side of every limit and compared with an independent statement of the rule',
  TRUST + 'The least-squares fit of numpy is trusted. Verdicts within rounding of a limit are not judged.')

P('C32', "Merging by day puts every file into its day's output",
  'Merging converted files by day finds the files of the input folder that match the pattern and writes, for each day and each ending (the codes and format after the first dot of the name) among them, '
  'one file in the output folder, named by that day at T00_00_00 and that ending. It holds the whole data of every input file of that day and ending, each read once, and of no other, joined into one piece per channel, '
  'with the last sample before a gap held throughout it. The output folder is made if missing and the input files stay.',
  ['inputs', 'configurations'],
  'every set of converted or renamed files, every pattern',
  'No test merges files; several days, loggers, locations and formats in one folder are not sampled.',
  [NET],
  [('merging', 'gemlog/gem_network.py:merge_files_day')],
  'abstract interpretation to terms; names, read patterns and outputs of every round of the loop are evaluated on sample folders',
  TRUST + 'What obspy does when it merges and writes is not judged. File names are those the package makes (no dots inside codes).')

P('C37', 'Requests that make no sense are refused, with the reason, before work begins',
  'These requests are refused by an error raised by gemlog itself, before data are read or anything is written: a cross-correlation whose band has a negative corner or whose low corner is not below the high one, '
  'whose window is zero or negative, whose overlap is negative, 1 or more, or whose upsampling ratio is below 1; an inventory from coordinates that are no table, lack latitude, longitude or elevation, or identify stations neither by '
  'serial number nor by network, station and location, or from a station table without these columns and the serial number; GPS folders given as neither text nor list; removal of the response from what is no stream or trace, or with a gain other than '
  'high or low; a conversion from a folder that does not exist or holds no raw files, or of a serial number that is not of three digits. Requests within these limits are not refused.',
  ['inputs', 'configurations'],
  'every value of the arguments named, alone or with any values of the others',
  'The tests try a handful of wrong values, mostly far from the limits, and one value at a time.',
  [XC, NET, CORE],
  [('cross-correlation', 'gemlog/xcorr.py:xcorr_all, _validate_inputs'), ('inventories', 'gemlog/gem_network.py:make_gem_inventory, _get_station_info'),
   ('GPS, response', 'gemlog/gem_network.py:read_gps, summarize_gps, deconvolve_gem_response, get_gem_response'), ('conversion', 'gemlog/core.py:convert')],
  'abstract interpretation to terms; the conditions of every refusal are evaluated for sample requests on both sides of each limit; order of effects for work that precedes a refusal; exception regions for refusals that are caught',
  TRUST)

P('C20', 'The huddle test flags exactly the loggers with a fault',
  'Run on the files of co-located loggers, the huddle test reports an error or warning for a logger if and only if its battery, temperature, GPS, clock, state of health or waveforms are outside what a healthy '
  'logger in the same place shows, and a grade that follows from these reports.',
  ['inputs', 'configurations'],
  'every folder of converted files and metadata of co-located loggers',
  'The tests check one or two small huddles.',
  ['gemlog/huddle_test.py'],
  [('verdicts', 'gemlog/huddle_test.py:verify_huddle_test')],
  na='What is a fault is given only by the thresholds in this one function; documentation states no independent limits, so a static check could only repeat the code. Whether the waveforms of co-located '
     'loggers agree is a matter of measured numbers (correlations over data) that no sound static argument bounds. Its options, process settings and names are covered by C15, C28 and C16.')

P('C33', 'Sample times and values are accurate to their stated tolerance',
  'Times of converted samples agree with true time within the residual of the clock fit, and sample values with the recorded pressure within the error of the interpolation; lags, slownesses, noise spectra and map '
  'coordinates are accurate to the resolution they are given with.',
  ['inputs', 'configurations'],
  'every drift of a logger clock, every signal, every array geometry',
  'The tests compare a few recordings with stored results.',
  [CORE, XC, AUX],
  [('clock fit', 'gemlog/core.py:_calculate_drift, _robust_regress'), ('interpolation', 'gemlog/core.py:_interp_time'),
   ('correlation', 'gemlog/xcorr.py:apply_function_windows')],
  na='A bound on numerical error over all data: least squares, splines, filters, cross-correlations, projections and integrals over unbounded floating-point inputs. No static analysis here gives a sound and useful bound. '
     'Which rows, powers, coefficients, options, bands and windows enter these computations is covered by C10, C12, C18, C19, C25 and C34.')

P('C36', 'Long recordings are converted within bounded memory and time',
  'A conversion of any length needs memory for a block of raw files and one output file at a time, and time that grows in proportion to the number of raw files.',
  ['inputs', 'configurations'],
  'every length of a recording',
  'The tests convert a few files.',
  [CORE],
  [('block loop', 'gemlog/core.py:convert'), ('reading', 'gemlog/core.py:_read_several')],
  na='Peak memory and run time are run-time quantities (they depend on pandas, numpy and obspy, and on when memory is returned); no static argument in reach bounds them. That the block loop is finite and '
     'advances past every block is part of C04 and C11.')

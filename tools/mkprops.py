"""Writes /verif/properties.jsonl (kept as code so that ids stay stable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=a, where=b) for a, b in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=list(observe), hook_needed=hook)))
IO = 'dolfyn/io/'
p('C01', 'TRDI recordings: every complete ensemble is read once, in order, exactly',
  'Reading a TRDI (PD0) file that ends at any byte returns, for every ensemble whose bytes were completely written before that point (only the very last ensemble in the file may be left out), exactly one time step, in recording order, carrying exactly the values and instrument settings the instrument recorded. Nothing that was not recorded is returned: no partial ensemble, no value carried over from another ensemble, no padding reported as data. This holds for all supported firmware families, data-block selections, block orders, profile sizes that change during a transect, and VMDAS / WinRiver navigation blocks.',
  ['inputs', 'crash_points', 'configurations'],
  'every instrument configuration and recording length, and every byte offset at which a power loss or a full card can end the file',
  'The tests read a handful of example files (mostly absent LFS pointers) that all end on an ensemble boundary and compare with stored output of the same reader.',
  [IO+'rdi.py', IO+'rdi_lib.py', IO+'rdi_defs.py', IO+'base.py'],
  [('ensemble search and offset table walk', IO+'rdi.py:_RDIReader.read_buffer'),
   ('end-of-file handling', IO+'rdi.py:_RDIReader.search_buffer, remove_end'),
   ('per-block decoders', IO+'rdi.py:read_var, read_vel, read_bottom, read_vmdas, read_winriver2')],
  [('ensemble', 'values of the ensemble being decoded, copied to the output arrays', IO+'rdi.py')],
  ['dolfyn.read()'])
p('C02', 'TRDI recordings: damage stays confined to the damaged ensembles',
  'When bytes of a TRDI file were lost, duplicated, overwritten, or had junk inserted between them (beyond the first two ensembles, which carry the settings, and in stretches shorter than the documented search distance of 30000 bytes), every ensemble that is itself undamaged and directly followed by an intact ensemble header is still returned, in order, with exactly its recorded values. Values of an undamaged ensemble are never mixed with, shifted to, or replaced by those of another one, and every ensemble returned corresponds to a recorded one or to a damaged region. Garbled navigation sentences or an invalid clock inside one ensemble never disturb the other ensembles.',
  ['inputs', 'fault_sequences'],
  'every sequence of link and storage faults (loss, duplication, corruption, junk, replaced text) at every position of every recording',
  'No test feeds a damaged file; resynchronisation code runs only for damage patterns no example file has.',
  [IO+'rdi.py', IO+'rdi_lib.py', IO+'rdi_defs.py'],
  [('resynchronisation', IO+'rdi.py:search_buffer, checkheader'),
   ('repositioning after an ensemble', IO+'rdi.py:check_offset'),
   ('GPS stream de-duplication', IO+'rdi.py:_remove_gps_duplicates')],
  [('_fixoffset', 'position correction applied after each ensemble', IO+'rdi.py')],
  ['dolfyn.read()'])
p('C03', 'Nortek recordings: every complete sample is read once, in order, exactly',
  'Reading a Nortek Vector, AWAC or Vectrino file that ends at any byte returns, for every sample record completely written before that point (only the last sample may be left out), exactly one time step in recording order with exactly the recorded velocity, amplitude, correlation and pressure values, and interleaved system / IMU records supply the recorded sensor values and times. The instrument settings reported are those in the configuration blocks. Nothing that was not recorded is returned.',
  ['inputs', 'crash_points', 'configurations'],
  'every instrument type, sampling rate, cell count, frame, IMU mode and recording length, and every byte offset at which the file can end',
  'The tests use a few recorded files that are not available here and compare with stored output of the same reader.',
  [IO+'nortek.py', IO+'nortek_defs.py', IO+'base.py'],
  [('record dispatch', IO+'nortek.py:_NortekReader.readfile, readnext'),
   ('record decoders', IO+'nortek.py:read_vec_data, read_vec_sysdata, read_microstrain, read_awac_profile'),
   ('end of file', IO+'nortek.py:dat2sci, readfile')],
  [('c', 'index of the sample being filled', IO+'nortek.py')], ['dolfyn.read()'])
p('C04', 'Nortek recordings: damage stays confined, and checksums detect it',
  'When bytes of a Nortek file were lost, duplicated, overwritten or inserted after the configuration headers, reading resynchronises at the next intact record, and every undamaged sample record outside the damaged stretch is returned in order with exactly its recorded values. With checksum verification requested, an undamaged file reads exactly as without it, and a record whose checksum does not match is never silently accepted as data.',
  ['inputs', 'fault_sequences'],
  'every sequence of link and storage faults at every position after the headers',
  'No test feeds a damaged file or turns checksum verification on.',
  [IO+'nortek.py', IO+'nortek_defs.py'],
  [('resynchronisation', IO+'nortek.py:findnext, findnextid'),
   ('checksum verification', IO+'nortek.py:checksum, _check_nortek')],
  [], ['dolfyn.read(), read_nortek(do_checksum=True)'])
p('C05', 'Signature recordings: every complete record is read once, in order, exactly',
  'Reading a Nortek Signature (AD2CP) file that ends at any byte returns, for each data stream in it (burst, average, fifth beam, bottom track, altimeter, echosounder), every record completely written before that point except possibly the last ensemble, exactly once, in recording order, each value exactly as recorded and attached to its own ensemble. Instrument settings are those of the configuration record, and unrecorded ensembles are never filled with invented data.',
  ['inputs', 'crash_points', 'configurations'],
  'every combination of streams, beams, cells, optional fields and recording length, and every byte offset at which the file can end',
  'The tests use recorded files that are not available here and compare with stored output of the same reader.',
  [IO+'nortek2.py', IO+'nortek2_lib.py', IO+'nortek2_defs.py', IO+'base.py'],
  [('ensemble bookkeeping', IO+'nortek2.py:_Ad2cpReader.readfile'),
   ('index of ensembles', IO+'nortek2_lib.py:_create_index, get_index'),
   ('incomplete tail', IO+'nortek2_lib.py:_calc_lastblock_iswhole, _check_index')],
  [], ['dolfyn.read()'])
p('C06', 'Signature recordings: damage is reported or confined, never turned into data',
  'When bytes of a Signature file were lost, duplicated, overwritten or inserted, reading either reports an error or returns data in which every undamaged record keeps exactly its recorded values at its own ensemble. When whole records are missing after the first two ensembles, the remaining ones keep their own ensembles and the gap reads as missing.',
  ['inputs', 'fault_sequences'],
  'every sequence of link and storage faults at every position',
  'No test feeds a damaged file; the gap-repair code runs only on files with lost records.',
  [IO+'nortek2.py', IO+'nortek2_lib.py'],
  [('sync verification', IO+'nortek2.py:readfile'),
   ('gap repair of the index', IO+'nortek2_lib.py:_check_index'),
   ('record checksum', IO+'nortek2.py:_read_hdr')],
  [], ['dolfyn.read()'])
p('C07', 'Signature index cache never changes what a read returns',
  'The result of reading a Signature file depends only on the file\'s present content: a cache file left beside it by an earlier read, an earlier file content (the recording grew, was replaced or was truncated), an interrupted or failed earlier read, a full disk, or another reader working on the same file at the same time never changes the data returned. An index that cannot be stored does not make the read return different data.',
  ['histories', 'crash_points', 'schedules', 'fault_sequences'],
  'every history of reads, appends, replacements and truncations of the recording, every crash point and write fault inside the cache update, and every interleaving of two readers',
  'The tests read each file with the cache rebuilt or intact; no crash, growth, replacement or concurrent reader occurs.',
  [IO+'nortek2_lib.py', IO+'nortek2.py'],
  [('cache lookup and rebuild', IO+'nortek2_lib.py:get_index'), ('cache writer', IO+'nortek2_lib.py:_create_index')],
  [('<file>.index', 'persistent table of ensemble positions', 'beside the data file')],
  ['dolfyn.read()', 'files in the data directory'])
p('C08', 'Reading part of a recording returns exactly that part of the full read',
  'For any recording and any number of ensembles or range of ensembles requested, the data returned equal the corresponding slice of the data returned by reading the whole recording (Vector sensor values that the full read interpolates from a system record after the requested range excepted). Requests at or beyond the end of the recording return what exists.',
  ['inputs', 'histories', 'configurations'],
  'every recording of every instrument family, every requested count or range, in any order of requests',
  'The tests use one fixed count (100) per example file.',
  [IO+'rdi.py', IO+'nortek.py', IO+'nortek2.py', IO+'api.py'],
  [('count handling', IO+'rdi.py:load_data'), ('count handling', IO+'nortek.py:_NortekReader.__init__'), ('range handling', IO+'nortek2.py:readfile')],
  [], ['dolfyn.read(nens=...)'])
p('C09', 'Reading any byte stream ends in bounded work and cleans up',
  'Whatever bytes a file contains, reading it finishes with a dataset or an exception after an amount of work and memory proportional to the file size; it never loops forever. Whether it succeeds or fails, no file handle is left open and no file other than the documented index or log is created or altered.',
  ['inputs', 'fault_sequences'],
  'every byte stream, in particular every corrupted, truncated or spliced recording of every instrument family, and I/O errors at any operation',
  'Tests only read intact files.',
  [IO+'rdi.py', IO+'nortek.py', IO+'nortek2.py', IO+'nortek2_lib.py', IO+'api.py'],
  [('search limit', IO+'rdi.py:search_buffer'), ('record spacing scan', IO+'nortek.py:code_spacing, findnextid'), ('index scan', IO+'nortek2_lib.py:_create_index')],
  [], ['return of dolfyn.read()', 'open descriptors', 'directory content'])
p('C10', 'The data read depend only on the file, not on the environment or history',
  'Reading the same file gives the same dataset whatever the time zone, present time, working directory, way the path is written, hash seed, debug setting, earlier successful or failed reads in the process, short or interrupted low-level reads, and other threads reading files at the same time.',
  ['schedules', 'histories', 'configurations', 'fault_sequences'],
  'every time zone, clock, working directory, hash seed, thread interleaving, and history of earlier reads',
  'Tests run sequentially, in one process, in UTC, with one hash seed.',
  [IO+'api.py', IO+'rdi.py', IO+'nortek.py', IO+'nortek2.py', IO+'nortek2_lib.py', IO+'rdi_defs.py', 'dolfyn/time.py'],
  [('per-reader state', IO+'rdi.py:_RDIReader'), ('per-reader state', IO+'nortek.py:_NortekReader'), ('UTC conversions', 'dolfyn/time.py')],
  [('module-level tables', 'variable definitions shared by all readers', IO+'*_defs.py')], ['dolfyn.read()'])
p('C11', 'Coordinate rotations are path-independent and reversible',
  'For any dataset an instrument can produce and any history of successful frame changes (beam, inst, earth, principal; with or without changing orientation data or in copy mode), every velocity-like variable equals what a direct change from the original frame gives, the recorded frame equals the last one requested, and returning to the original frame restores the original values. Missing samples stay missing and never affect other samples.',
  ['histories', 'configurations', 'inputs'],
  'every history of frame changes over every instrument family, beam geometry, orientation and orientation-matrix source',
  'Tests try single fixed transitions of a few files.',
  ['dolfyn/rotate/api.py', 'dolfyn/rotate/base.py', 'dolfyn/rotate/rdi.py', 'dolfyn/rotate/vector.py', 'dolfyn/rotate/signature.py', 'dolfyn/velocity.py'],
  [('path through frames', 'dolfyn/rotate/api.py:rotate2'), ('frame bookkeeping', 'dolfyn/rotate/base.py:_set_coords')],
  [('coord_sys', 'present frame of the dataset', 'ds.attrs')], ['dolfyn.rotate2()', 'ds.velds.rotate2()'])
p('C12', 'Declination changes are absolute, order-independent and never counted twice',
  'After any history of declination settings and frame changes, earth-frame velocities, orientation matrix and heading equal those of setting the last declination once on the original data, and the recorded declination is the last one set. Setting the same value again changes nothing, setting zero undoes it, and a value given in the userdata file acts exactly like setting it afterwards.',
  ['histories', 'configurations'],
  'every history of declination settings and frame changes, including values stored by the instrument or in userdata files',
  'Tests set one value once per example file.',
  ['dolfyn/rotate/api.py', IO+'rdi.py', IO+'nortek.py', IO+'nortek2.py', 'dolfyn/rotate/base.py'],
  [('incremental rotation by the difference', 'dolfyn/rotate/api.py:set_declination'), ('instrument-stored declination', IO+'rdi.py:_set_rdi_declination')],
  [('declination', 'value the data are presently corrected for', 'ds.attrs')], ['dolfyn.set_declination()'])
p('C13', 'A failed frame or declination change leaves the dataset as it was',
  'When a frame change, declination setting or head-rotation setting fails at any point (memory exhausted, interrupted by the user, or an impossible request), the dataset is exactly as it was before the call: values, recorded frame, recorded declination and flags. Repeating the call afterwards succeeds with the same result as if the failure had never happened.',
  ['fault_sequences', 'crash_points', 'histories'],
  'every allocation or interruption point inside every frame change of every dataset',
  'Tests never make a numerical step fail.',
  ['dolfyn/rotate/api.py', 'dolfyn/rotate/vector.py', 'dolfyn/rotate/rdi.py', 'dolfyn/rotate/signature.py', 'dolfyn/rotate/base.py'],
  [('in-place variable replacement', 'dolfyn/rotate/vector.py, rdi.py, signature.py'), ('frame bookkeeping', 'dolfyn/rotate/base.py:_set_coords')],
  [('coord_sys', 'present frame', 'ds.attrs')], ['dolfyn.rotate2()', 'dolfyn.set_declination()'])
p('C14', 'Copy-mode operations never touch the caller\'s dataset, even across threads',
  'Frame changes, declination settings and head-rotation settings requested as a copy, principal-axis calculation and all derived-velocity properties leave the input dataset bit-for-bit unchanged, also when several threads use the same dataset at the same time or when the operation fails; each thread gets the result it would get alone.',
  ['schedules', 'histories', 'fault_sequences'],
  'every interleaving of threads sharing a dataset and every history of operations on it',
  'Tests are single-threaded and rarely look at the input afterwards.',
  ['dolfyn/rotate/api.py', 'dolfyn/velocity.py', 'dolfyn/rotate/base.py'],
  [('copy on request', 'dolfyn/rotate/api.py:rotate2, set_declination, set_inst2head_rotmat'), ('shear / speed / direction properties', 'dolfyn/velocity.py')],
  [], ['dolfyn.rotate2(inplace=False)', 'ds.velds.*'])
p('C15', 'Saving to netCDF and loading back preserves the dataset through any cycles',
  'Loading a saved dataset gives back every variable (to single precision), coordinate, time stamp, dimension, flag and attribute, through any number of save/load cycles and intervening frame changes, with or without compression, including complex-valued variables. Saving never changes the dataset in memory, and saving twice gives files that load identically.',
  ['histories', 'inputs', 'configurations'],
  'every dataset the readers produce and every history of save, load, frame change and re-save',
  'Tests do one cycle of a few example files and do not inspect the saved object.',
  [IO+'api.py'],
  [('complex split and float conversion', IO+'api.py:save'), ('restoring lists and complex', IO+'api.py:load')],
  [], ['dolfyn.save()', 'dolfyn.load()'])
p('C16', 'A failed or interrupted save is noticed and never loads as different data',
  'If saving fails or the process dies at any point while saving (full disk, I/O error, power loss), then either the call raised an error or nothing was acknowledged, and loading the file afterwards raises an error or gives exactly the dataset being saved or the one saved there before; a save that returned success is completely readable. A save that fails for any reason leaves the dataset in memory unchanged and can be repeated successfully.',
  ['crash_points', 'fault_sequences', 'histories'],
  'every write operation at which the disk fills, fails or the process dies, for netCDF and MATLAB files, new or overwriting',
  'Tests never let a write fail.',
  [IO+'api.py'],
  [('netCDF writer', IO+'api.py:save'), ('MATLAB writer', IO+'api.py:save_mat')],
  [('output file', 'partially written state', 'file system')], ['dolfyn.save()', 'dolfyn.save_mat()', 'dolfyn.load()', 'dolfyn.load_mat()'])
p('C17', 'Saving to MATLAB format and loading back preserves the dataset',
  'Loading a dataset saved in MATLAB format gives back every variable, coordinate, dimension, attribute and time stamp (to the resolution of the chosen time format), through any number of cycles. Saving never changes the dataset in memory.',
  ['histories', 'inputs', 'configurations'],
  'every dataset the readers produce, both time formats, any number of cycles',
  'Tests do one cycle of a few example files and do not inspect the saved object.',
  [IO+'api.py', 'dolfyn/time.py'],
  [('time conversion and structure layout', IO+'api.py:save_mat, load_mat')],
  [], ['dolfyn.save_mat()', 'dolfyn.load_mat()'])
p('C18', 'Cropping a Signature recording gives a recording of exactly those ensembles',
  'Cropping a Signature file to a range of ensembles writes a file that reads as exactly that range of the original, with the same settings (as in any recording, only its very last ensemble may be left out), and never alters the original; cropped files can be cropped again. If cropping fails or dies part way, the output file is absent, as it was before, or reads as a beginning of the requested range, and a repeated crop succeeds.',
  ['histories', 'crash_points', 'fault_sequences', 'inputs'],
  'every recording, range, repeated crop, crash point and write fault',
  'The test crops one file once.',
  [IO+'nortek2_lib.py'],
  [('range copy', IO+'nortek2_lib.py:crop_ensembles')], [], ['dolfyn.io.nortek2_lib.crop_ensembles()', 'dolfyn.read()'])
p('C19', 'Instrument clock faults never corrupt other data',
  'When the instrument clock is wrong for some records (impossible dates, stopped, jumping backwards or forwards, reset), reading still returns every record with its measured values, in recording order, gives every record with a valid clock exactly its recorded time (the samples of a Vector, which are timed by one line through the clock readings of their burst, whenever the possible readings of that burst agree), and gives records with an impossible clock a missing or interpolated time. The derived settings and the other records do not depend on the faulty ones.',
  ['fault_sequences', 'inputs'],
  'every sequence of clock faults at any positions of any recording',
  'No test file has a faulty clock.',
  [IO+'rdi.py', IO+'nortek.py', IO+'nortek2.py', IO+'nortek2_lib.py', IO+'base.py', 'dolfyn/tools/misc.py'],
  [('invalid stamp handling', IO+'rdi.py:load_data'), ('time interpolation', IO+'nortek.py:rd_time / sci_vec_sysdata'), ('gap interpolation', IO+'nortek2.py:read_signature')],
  [], ['dolfyn.read()'])
p('C20', 'Settings files take effect exactly as given, whichever way they are supplied',
  'A userdata file found beside the recording or passed by path sets exactly the attributes it lists, identically for every instrument family and whatever earlier reads happened; without one, or when told not to use it, none is applied. A broken, vanished or unreadable userdata file is reported as an error and never half-applied, and the file itself is never modified.',
  ['configurations', 'histories', 'fault_sequences'],
  'every userdata content and placement, history of earlier reads, and damage to the file',
  'Tests use one or two userdata files in one place.',
  [IO+'base.py', IO+'rdi.py', IO+'nortek.py', IO+'nortek2.py'],
  [('lookup', IO+'base.py:_find_userdata'), ('parsing', IO+'base.py:_read_userdata')], [], ['dolfyn.read(userdata=...)'])
# --- not applicable to deterministic simulation
def na(id, title, st, files, mech):
    p(id, title, st, ['inputs'], 'every input array', 'Tests sample a few inputs.', files, mech)
na('N01', 'Bin averaging conserves samples',
   'Averaging into bins uses every complete bin exactly once and returns, for every variable and coordinate, the mean of the bin\'s samples.',
   ['dolfyn/binned.py', 'dolfyn/velocity.py'], [('reshape', 'dolfyn/binned.py:TimeBinner.reshape')])
na('N02', 'Spectra conserve variance',
   'The integral of a power spectral density equals the variance of the detrended signal, and coherence lies between 0 and 1.',
   ['dolfyn/binned.py', 'dolfyn/tools/psd.py'], [('fft', 'dolfyn/tools/psd.py:psd')])
na('N03', 'Turbulence statistics agree with their definitions',
   'Dissipation, turbulent kinetic energy and Reynolds stress results equal their defining formulas for every input.',
   ['dolfyn/adv/turbulence.py', 'dolfyn/adp/turbulence.py'], [('estimators', 'dolfyn/adv/turbulence.py')])
na('N04', 'Cleaning filters alter only flagged samples',
   'Spike filters and correlation filters change only samples they flag, and gap filling changes only missing samples.',
   ['dolfyn/adv/clean.py', 'dolfyn/adp/clean.py', 'dolfyn/tools/misc.py'], [('masks', 'dolfyn/adv/clean.py')])
na('N05', 'Angle, quaternion and time conversions invert each other',
   'Converting heading/pitch/roll or quaternions to an orientation matrix and back, and converting between time formats and back, returns the original values.',
   ['dolfyn/rotate/base.py', 'dolfyn/time.py'], [('conversions', 'dolfyn/rotate/base.py:euler2orient')])
na('N06', 'Motion correction removes exactly the sensor motion',
   'Velocity after motion correction equals measured velocity plus the head velocity implied by the IMU, whatever the order of frames it is computed in.',
   ['dolfyn/adv/motion.py'], [('CorrectMotion', 'dolfyn/adv/motion.py')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, q['id']
        f.write(json.dumps(q, ensure_ascii=False) + '\n')
print(len(P))

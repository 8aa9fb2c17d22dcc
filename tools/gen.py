#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PARS = 'freesif/sequentialparser/parsers.py'
SEQ = 'freesif/sequentialparser/sequentialfiles.py'
CONV = 'freesif/sequentialparser/sif2hdf5.py'
STRUC = 'freesif/data/strucdata.py'
HYDRO = 'freesif/data/hydrodata.py'
SIFD = 'freesif/data/sifdata.py'
FILE = 'freesif/data/file.py'
HELP = 'freesif/data/helpers.py'
WR = 'freesif/utils/writers.py'
PRI, VM, GEN = ('freesif/calc/principal.py', 'freesif/calc/vonmises.py',
                'freesif/calc/general.py')

STORE = 'real conversions of generated interface files; an independent HDF5 ' \
        'reader (h5py) compares every dataset with the reference encoding'
MODEL = 'real queries on converted generated files, each answer compared ' \
        'with an independent executable model of the generated data'

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe,
         note, state=None, technique=None):
    P.append((dict(
        id=pid, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w)
                            for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=None)),
        note, technique))


SAMPLE = 'The tests convert a few sample files shipped with the repository ' \
         'and compare a handful of shapes and numbers; '

prop('C01', 'Every fixed field of a supported record is stored unchanged',
     'Converting an interface file stores every supported record type it '
     'holds as one table of its data set, with one row per record in the '
     'order of the file. Every fixed field of the row equals the number or '
     'text on the file (integers exactly, reals as the single precision '
     'number on the file), whatever mix of record types and of optional '
     'trailing fields the file has. A record that goes on behind the fields '
     'known hides nothing that follows. Tables exist for no other record '
     'types.',
     ['inputs'], 'all valid formatted and unformatted T, L, R and G files, '
     'in any legal mix and order of the supported record types, with and '
     'without optional fields',
     SAMPLE + 'most record types and most of their fields never occur in '
     'them or are never compared.',
     [PARS, SEQ, CONV],
     [('record readers, one per record type', PARS),
      ('table descriptions', PARS), ('reading records of floats', SEQ)],
     ['sif2hdf5', 'the HDF5 file it writes'],
     'Exploration: held on the generated files. Trusts h5py and the '
     'generator\'s own encoding of the interface format, which is '
     'cross-checked on the sample files of the repository.', technique=STORE)

prop('C02', 'Variable-length data stays complete and with its own record',
     'The variable length part of every record (node lists, set members, '
     'result values, texts, component and position definitions, matrices, '
     'panel pressures) is stored completely, unchanged and in file order. '
     'The bounds stored with a record select exactly that record\'s values, '
     'for every length including none and for every neighbouring record. A '
     'file with a form of a record that is not supported (several '
     'representations of a concept mesh, unknown concept or element types, '
     'element coordinates without their positions) is refused with an '
     'error, wherever in the file the record is.',
     ['inputs'], 'all valid files with records of any length, empty ones and '
     'ones spanning many physical records, in any order',
     SAMPLE + 'alignment between a record and its values is only visible '
     'through a few sampled results.',
     [PARS, SEQ], [('running start and stop indices', PARS),
                   ('reading records of floats', SEQ)],
     ['sif2hdf5', 'the HDF5 file it writes'],
     'Exploration: as C01, for the payload arrays and the index pairs.',
     technique=STORE)

prop('C03', 'Formatted and unformatted files give the same data',
     'Two files with the same records, one in the formatted (text) and one '
     'in the unformatted (binary) encoding, are converted to the same data: '
     'the same data sets, tables, rows and arrays, with reals equal to the '
     'precision the text carries. Which encoding a file has is found out '
     'from its content alone, whatever its extension, for every file of an '
     'assembly.',
     ['inputs', 'configurations'],
     'all record sequences that can be written in both encodings',
     SAMPLE + 'no model is there in both encodings.',
     [SEQ, PARS], [('formatted reader', SEQ), ('unformatted reader', SEQ)],
     ['sif2hdf5', 'the HDF5 file it writes'],
     'Exploration: differential; numbers are chosen so that the text holds '
     'them exactly.', technique='differential execution of both encodings')

prop('C04', 'Unsupported records are skipped without a trace',
     'Records of types that are not supported or not even known, of any '
     'length and at any place between supported ones, change nothing: the converted data is '
     'the same as that of the same file without them. The same holds for the '
     'directory and pointer records that direct access files carry.',
     ['inputs'], 'all insertions of unsupported records, alone and in runs, '
     'in both encodings, at any place after the header records',
     SAMPLE + 'only the unsupported records which happen to be in them are '
     'skipped.',
     [SEQ, PARS], [('skipping the rest of a record', SEQ),
                   ('header recognition', SEQ)],
     ['sif2hdf5', 'the HDF5 file it writes'],
     'Exploration: differential against the same file without the noise, '
     'and against the reference.',
     technique='differential execution with and without inserted noise')

prop('C05', 'Conversion of selected record types equals filtering',
     'Converting with a selection of record types gives exactly the tables '
     'and arrays of the selected types, with the same content that a full '
     'conversion gives them, and nothing for the other types. This holds for '
     'every selection that includes the types the selected ones depend on, '
     'in any order, and for every file of an assembly.',
     ['inputs', 'configurations'], 'all selections of record types closed '
     'under the documented dependencies, on all valid files and assemblies',
     'The tests use no selection, or one.',
     [PARS, CONV], [('record selection', PARS)],
     ['sif2hdf5', 'the HDF5 file it writes'],
     'Exploration: differential against the full conversion.',
     technique='differential execution: selection against full conversion')

prop('C06', 'Files of any size are converted completely',
     'The number of consecutive records of one type and the length of their '
     'variable part have no influence on the correctness: all rows and '
     'values arrive complete, in order and with matching bounds. In '
     'particular nothing is lost, repeated or shifted when internal buffers '
     'fill up, at any position relative to the fill level.',
     ['inputs'], 'record counts up to several hundred thousand, around and '
     'at multiples of the buffer size, in one or more runs of records',
     'The sample files have far fewer records of one type than one buffer '
     'holds.',
     [PARS], [('buffered rows and values', PARS)],
     ['sif2hdf5', 'the HDF5 file it writes'],
     'Exploration: big files around powers of ten and powers of two, and '
     'runs in which the buffers are made small.',
     state=[('record buffers', 'rows and values not yet written', PARS)],
     technique=STORE + '; stress sizes and small buffers')

prop('C07', 'A conversion does not depend on what was converted before',
     'The result of a conversion depends only on its own input and '
     'arguments. It is the same after any sequence of earlier conversions '
     'in the same process - other models, other kinds of files, assemblies, '
     'selections, in-memory conversions and conversions that failed half '
     'way - as in a fresh process.',
     ['histories', 'fault_sequences'], 'all sequences of successful and '
     'failing conversions in one process',
     'The tests convert in one fixed order and never after a failure.',
     [PARS, CONV], [('resetting of the parser state', PARS)],
     ['sif2hdf5', 'the HDF5 file it writes'],
     'Exploration: random histories, compared with the reference and with a '
     'fresh process.',
     state=[('module level parser state', 'path, prefix, hierarchy, element '
             'data and reference data', PARS)],
     technique='history exploration with a reference encoding as oracle')

prop('C08', 'Appending adds data sets and leaves the others alone',
     'Converting several files into one HDF5 file, by appending or as a '
     'sequence, gives exactly the data sets that separate conversions give, '
     'under the group names with the chosen prefixes. Data sets already '
     'there keep their names, content and attributes, also when a later '
     'append fails or would reuse an existing name; without appending the '
     'old content is replaced completely. A list of prefixes that does not '
     'have one for each file is refused and nothing is written.',
     ['histories', 'configurations'], 'all sequences of appends, sequence '
     'conversions, prefixes, name clashes and failures',
     'The tests append once.',
     [CONV, PARS], [('opening the output file', CONV),
                    ('group names and prefixes', PARS)],
     ['sif2hdf5', 'the HDF5 file it writes'],
     'Exploration: differential against separate conversions.',
     technique='history exploration, differential against single conversions')

prop('C09', 'An assembly is converted completely, each file once',
     'Converting the top file of a superelement hierarchy converts every '
     'file of the hierarchy that exists in the directory, each exactly once '
     'and into its own data set, marked with its level and number. The '
     'hierarchy data stored with the top level describes all occurrences '
     'with their references and transformations; files that are missing are '
     'left out and change nothing for the others. References need not be '
     'consecutive nor in the order of the list.',
     ['inputs', 'configurations'], 'all hierarchies: any number of levels, '
     'repeated occurrences, shared superelement types, skipped levels, '
     'missing files, prefixes and both families of files',
     'The tests know one small assembly.',
     [PARS, CONV], [('hierarchy reader', PARS), ('walk of the files', CONV)],
     ['sif2hdf5', 'the HDF5 file it writes'],
     'Exploration: random hierarchies against the reference.',
     technique=STORE)

prop('C10', 'In-memory conversion and default names work as documented',
     'Converting in memory gives the same data as converting to a file and '
     'leaves no file behind and no existing file changed. A conversion to a '
     'file writes only that file; without an output name it is named like '
     'the input with the extension h5, in the current directory, and its '
     'path is returned.',
     ['inputs', 'configurations'], 'all input files, encodings, present or '
     'absent files of the same name',
     'The tests check a single such conversion.',
     [CONV, FILE], [('output file choice', CONV), ('opening of text and '
                    'binary input directly', FILE)],
     ['sif2hdf5', 'open_sif', 'the directory tree'],
     'Exploration: differential, with snapshots of the directory tree.',
     technique='differential execution with directory snapshots')

prop('C11', 'A failing conversion raises, releases files, harms nothing',
     'A conversion of a damaged, truncated or missing input that cannot be '
     'completed (it is empty, ends inside a number or, if unformatted, '
     'after any record but the last, has text in the place of '
     'a number) raises an exception in bounded time and leaves no input or '
     'output file open. Data that was in the output file before an append '
     'or sequence stays as it was, an input that does not exist or an '
     'output that cannot be opened changes no '
     'file at all, and once input and output are repaired the same '
     'call succeeds in the same process with the complete result.',
     ['fault_sequences', 'inputs'], 'truncation at any byte, changed bytes, '
     'missing records, missing files; new, appended, in-memory, sequence '
     'conversions and direct opening',
     'The tests have no damaged input.',
     [CONV, SEQ, PARS], [('closing of files on failure', CONV)],
     ['sif2hdf5', 'open_sif', 'open file descriptors', 'the HDF5 file'],
     'Exploration: random damage, with monitors on open descriptors and open '
     'HDF5 files. It does not claim that every damage is noticed.',
     technique='fault injection with descriptor and content monitors')

prop('C12', 'File names decide acceptance, output name and data set name',
     'Names of the form prefix + letter T, L, R or G + number + known '
     'extension, in upper, lower or mixed case, are accepted and determine the data '
     'set name and the default output name. Any other name or argument type, '
     'SIN files, in-memory conversion of sequences and appending without an '
     'output name are refused with the documented error before anything is '
     'written.',
     ['inputs'], 'all names and combinations of arguments',
     'The tests use a few upper case names.',
     [CONV, HELP, PARS], [('parsing of file names', HELP),
                          ('argument checks', CONV)],
     ['sif2hdf5', 'the directory tree'],
     'Exploration: generated names with snapshots of the directory tree.',
     technique='reference grammar of names, directory snapshots')

S = 'all generated finite element models with any numbering, any mix of the ' \
    'supported element types, sets and selections'
SW = 'The tests compare shapes and a few numbers of small sample models, ' \
     'mostly with consecutive numbering and single element types.'

prop('S01', 'Node rows and numbers follow one order for every selection',
     'Node coordinates, external and internal node numbers of the same '
     'selection (sets, element kind, disconnected or not) have the same '
     'number of rows in the same order, so that row k of each describes the '
     'same node. Connected, every node of the selection is there once; '
     'disconnected, every element node is there, in the order of the '
     'elements and their connectivity.',
     ['inputs', 'configurations'], S, SW, [STRUC],
     [('node selection', STRUC)], ['get_nodes', 'get_nodenumbers'],
     'Exploration against a reference model.', technique=MODEL)
prop('S02', 'Element connectivity refers to the right node rows',
     'For every selection the connectivity, offsets and types of the '
     'elements describe exactly the selected elements in their order, with '
     'each index pointing at the row of that node in the node array of the '
     'same selection. Element numbers have the same order; disconnected, no '
     'two elements share a row.',
     ['inputs', 'configurations'], S, SW, [STRUC],
     [('renumbering of the connectivity', STRUC)],
     ['get_elements', 'get_nodes', 'get_elementnumbers'],
     'Exploration against a reference model.', technique=MODEL)
prop('S03', 'Selecting by sets gives exactly the members',
     'A selection by one set name or several returns exactly the elements that are members of at least '
     'one of the named sets, each once and in model order, restricted to the '
     'wanted element kind. Every name that is listed can be selected, '
     'whatever characters it has, and unknown names raise an error.',
     ['inputs'], S + '; overlapping, nested, split and empty sets', SW,
     [STRUC, HELP], [('set members', STRUC)],
     ['get_setnames', 'get_elements', 'get_elementnumbers', 'get_nodes'],
     'Exploration against a reference model.', technique=MODEL)
prop('S04', 'Node results belong to the nodes of the same row',
     'Displacements, velocities and accelerations of a selection are those '
     'stored for the node of the same row of the node array and for the '
     'chosen run and result cases, with one leading entry per result case '
     'when several are asked for. This holds for every selection, connected '
     'or not, and also when the model has nodes no element uses (of all '
     'nodes, those without results have no row).',
     ['inputs', 'configurations'], S + ', runs and result cases', SW,
     [STRUC], [('node results', STRUC)], ['get_noderesults', 'get_nodes'],
     'Exploration against a reference model.', technique=MODEL)
E_ = [('element results', STRUC), ('per element type processing', STRUC)]
prop('S05', 'Beam forces belong to the element nodes of the same row',
     'Beam forces of a selection are the stored forces of each selected beam '
     'at each of its nodes, in the order of the element nodes of the '
     'disconnected node array, with the documented components. This holds '
     'for two and three node beams in any mix and any set of result cases.',
     ['inputs', 'configurations'], S, SW, [STRUC], E_,
     ['get_elementresults'], 'Exploration against a reference model.',
     technique=MODEL)
prop('S06', 'Thin shell stresses are extrapolated to the right nodes',
     'Stresses of thin shell elements at element nodes, general or '
     'decomposed into membrane and bending parts, are those that follow from '
     'the stresses stored at the result points of the element, in the order '
     'of the element nodes of the disconnected node array. This holds for '
     'triangles and quadrilaterals in any mix and any set of result cases.',
     ['inputs', 'configurations'], S, SW, [STRUC], E_,
     ['get_elementresults'], 'Exploration against a reference model.',
     technique=MODEL)
prop('S07', 'Thick shell stresses are extrapolated to the right nodes',
     'Stresses of thick (6 and 8 node) shell elements at element nodes, '
     'general or decomposed into membrane, bending and shear parts, are '
     'those that follow from the stresses stored at the result points of the '
     'element. The values of one element keep the documented order of '
     'element nodes, for any mix of elements and any set of result cases.',
     ['inputs', 'configurations'], S, SW, [STRUC], E_,
     ['get_elementresults'], 'Exploration against a reference model.',
     technique=MODEL)
prop('S08', 'Complex results keep real and imaginary parts together',
     'Results stored as complex come back as complex numbers with the real '
     'and imaginary parts of the same component of the same node, for node '
     'results and all element results. Results stored as real come back '
     'real.',
     ['inputs'], S + ', with complex result cases', SW, [STRUC, PARS],
     E_ + [('complex node results', PARS)],
     ['get_noderesults', 'get_elementresults'],
     'Exploration against a reference model.', technique=MODEL)
prop('S09', 'Result cases are selected by run and external number',
     'A query for a run and result cases (one, several, or all) gives '
     'exactly the results of that run with these external numbers, in the '
     'order of the internal numbering, also when runs reuse the same numbers. '
     'Mixing real and complex result cases in one query raises the result '
     'error instead of giving mixed data.',
     ['inputs', 'configurations'], 'all combinations of runs, result case '
     'numbers and selections', 'The sample files have one run each.',
     [STRUC], [('result reference lookup', STRUC)],
     ['get_noderesults', 'get_elementresults'],
     'Exploration against a reference model.', technique=MODEL)
prop('S10', 'Section and thickness rows belong to the selected elements',
     'Section properties have one row per selected beam and thicknesses one '
     'value per selected shell, in element order, each being the one the '
     'element refers to. This holds for every numbering of the sections and '
     'thicknesses and every set selection.',
     ['inputs'], S, SW, [STRUC], [('property lookup', STRUC)],
     ['get_section_properties', 'get_shell_thicknesses'],
     'Exploration against a reference model.', technique=MODEL)
prop('S11', 'Coordinate transformations follow the hierarchy',
     'Node coordinates transformed to the top, to a given level or by a '
     'given matrix are the untransformed ones under the product of the '
     'transformations along the path of that occurrence, for every '
     'occurrence in the hierarchy; the transformation query returns that '
     'same product. Levels that are not above the superelement, missing '
     'hierarchies and unusable matrices raise errors.',
     ['inputs', 'configurations'], 'all hierarchies, occurrences, levels and '
     'matrices', 'One sample assembly with one level is compared.',
     [STRUC, FILE], [('transformation product', STRUC)],
     ['get_nodes', 'get_transformation'],
     'Exploration against a reference model.', technique=MODEL)
prop('S12', 'Result case names belong to their numbers',
     'The names of result cases are returned as a mapping from external '
     'number to the stored name, for all of them, one, or the listed ones; '
     'numbers without a name are left out.',
     ['inputs'], 'all sets of named load cases and all number arguments',
     'Only one sample file is compared.', [STRUC],
     [('name lookup', STRUC)], ['get_resultcase_names'],
     'Exploration against a reference model.', technique=MODEL)
prop('S13', 'Missing records of a model raise one documented error',
     'A query that needs a record type the data set does not have raises '
     'the no-such-record error, for every query and record type, and queries '
     'that do not need it still answer correctly. It never returns data of '
     'something else.',
     ['inputs'], 'all subsets of the record types of a model, all queries',
     'The tests have complete files.', [SIFD, STRUC],
     [('record access', SIFD)], ['all queries of first level data'],
     'Exploration over left-out record types.', technique=MODEL)

H = 'all generated hydrodynamic results with any number and order of bodies, ' \
    'directions, frequencies, sections, points and panels'
HWHY = 'The tests read one or two sample files with one or two bodies.'
HMECH = [('result arrays shaped from stored rows', HYDRO)]
prop('H01', 'Directions, frequencies and time steps are those of the file',
     'Directions (degrees or radians), angular frequencies and periods are '
     'those stored on the file, in its order, and time steps those on the '
     'file in increasing order; there are only the ones of '
     'its analysis domain: asking a time domain file for frequency data, or '
     'the other way round, raises the result error. Gravity, density and '
     'depth are those of the file.',
     ['inputs'], H, HWHY, [HYDRO, PARS], HMECH,
     ['get_angular_freqs', 'get_periods', 'get_directions', 'get_timesteps'],
     'Exploration against a reference model.', technique=MODEL)
prop('H02', 'Motions and excitation forces: right body, axis, place',
     'Motion and excitation force transfer functions of a body are complex '
     'arrays of components by directions by frequencies, each value being '
     'the one stored for that body, component, direction and frequency. '
     'This holds for any number of bodies, directions and frequencies.',
     ['inputs'], H, HWHY, [HYDRO, PARS], HMECH,
     ['get_motion_raos', 'get_excitationforce_raos'],
     'Exploration against a reference model.', technique=MODEL)
prop('H03', 'Section forces and fluid kinematics: right place',
     'Section force transfer functions have for every section, component, '
     'direction and frequency the stored value, and fluid pressures and '
     'velocities for every point, component, direction and frequency; the '
     'sections and points listed have the same order, those of a body being '
     'the sections of that body, however many bodies have sections. The '
     'elevation is the '
     'pressure divided by density and gravity.',
     ['inputs'], H, HWHY, [HYDRO, PARS], HMECH,
     ['get_sections', 'get_points', 'get_sectionforce_raos',
      'get_fluidkinematics_raos'],
     'Exploration against a reference model.', technique=MODEL)
prop('H04', 'Matrices are those of the asked type and pair of bodies',
     'Each matrix query (mass, added mass, damping, restoring, mooring) '
     'returns the six by six matrices stored for that type and pair of '
     'bodies, not transposed and not mixed with the coupled ones, frequency '
     'dependent types with one matrix per frequency in frequency order. '
     'Unknown types and pairs that are not on the file are not answered '
     'with other data.',
     ['inputs'], H, HWHY, [HYDRO, PARS], HMECH,
     ['get_matrix', 'get_bodymass', 'get_addedmass', 'get_potentialdamping',
      'get_viscousdamping', 'get_hydrostatic_restoring',
      'get_mooring_restoring'],
     'Exploration against a reference model.', technique=MODEL)
prop('H05', 'Body numbers of the user select the right body data',
     'A body is addressed by its external number, however the file numbers '
     'it internally: properties and results of a body are those of that '
     'body. Numbers that are not on the file raise the condition error.',
     ['inputs'], H + '; external numbers equal to, permuted or different '
     'from the internal ones', HWHY, [HYDRO], [('body condition lookup',
                                                HYDRO)],
     ['get_bodyproperties', 'get_horiz_meandrift', 'get_motion_raos'],
     'Exploration against a reference model.', technique=MODEL)
prop('H06', 'Drift forces and panel pressures: right place',
     'Drift forces have for every component, direction (and direction pair '
     'as stored) and frequency the stored value of that body. Panel '
     'pressures have for every panel, symmetry part, direction and frequency '
     'the stored complex value, with the panel numbers listed in the same '
     'order, and bodies without panels give none.',
     ['inputs'], H, HWHY, [HYDRO, PARS], HMECH,
     ['get_meandrift', 'get_horiz_meandrift', 'get_panel_pressures',
      'get_pressure_panel_ids'],
     'Exploration against a reference model.', technique=MODEL)
prop('H07', 'Missing hydrodynamic records raise one documented error',
     'A query for data whose record type is not on the file raises the '
     'no-such-record error (panel pressures give none), and the queries for '
     'what is there still answer; opening a file that lacks the basic records '
     '(global definition, result reference, body) is no error by itself.',
     ['inputs'], 'all subsets of the record types', HWHY, [HYDRO, SIFD],
     [('record access', SIFD)], ['all queries of hydrodynamic data'],
     'Exploration over left-out record types.', technique=MODEL)

KW = 'The tests compare a few arrays.'
prop('K01', 'Principal stresses are the eigenvalues of the stress tensor',
     'Principal stresses of plane and thick shell stresses are the '
     'eigenvalues of the stress tensor of each state, real, the larger one '
     'first, with the shape of the input but for the last axis; for thick '
     'shells the one of smallest magnitude is left out. This holds for '
     'floating point numbers and integers alike. Further components '
     'on the last axis are ignored and the input is not changed.',
     ['inputs'], 'all finite stress states incl. zero, equal, opposite and '
     'nearly equal ones, all shapes and number types', KW, [PRI],
     [('principal stresses', PRI)], ['principal2d', 'principal_thickshell'],
     'Exploration against a symmetric eigenvalue solver with explicit '
     'tolerances.', technique='numerical oracle on executions')
prop('K02', 'Von Mises stress follows from the deviatoric stress',
     'The von Mises stress of a plane stress state equals the one computed '
     'from the deviatoric stress tensor and from the principal stresses, is '
     'never negative, and has the shape of the input without its last axis, for '
     'floating point numbers and integers alike. Further components are '
     'ignored and the input is not changed.',
     ['inputs'], 'all finite stress states, shapes and number types', KW,
     [VM], [('von Mises stress', VM)], ['vonmises2d', 'principal2d'],
     'Exploration against an independent formula.',
     technique='numerical oracle on executions')
prop('K03', 'The signed extreme is the value of largest magnitude',
     'Reducing an array to its signed extreme along any axis or all gives a '
     'value of the reduced elements whose magnitude is the largest there, '
     'with the type of the input and the shape of a reduction. The input is '
     'not changed.',
     ['inputs'], 'all arrays, axes and signs, incl. ties', KW, [GEN],
     [('signed extreme', GEN)], ['absmax'],
     'Exploration against a direct definition.',
     technique='numerical oracle on executions')
prop('K04', 'Positions of element node results point at the right result',
     'For a list of external element and node numbers the returned positions '
     'select from every element result array of the same selection the '
     'result of that element at that node, also when nodes are shared by '
     'several elements and element types are mixed. A pair of which the '
     'element is not there, or has no such node, raises an error. The same '
     'positions '
     'select the coordinates from the disconnected node array but for '
     'six-node triangles, whose results follow the perimeter.',
     ['inputs', 'configurations'], S, 'The tests look up two pairs in one '
     'model.', [GEN, STRUC], [('search of the positions', GEN)],
     ['find_elemres_indices', 'get_elementresults'],
     'Exploration against a reference model.', technique=MODEL)

prop('V01', 'A written vtu file holds exactly what was given',
     'A file written through the vtu writer is well-formed and holds, for '
     'every piece, the points, cells and data arrays given, with their '
     'names, component names, types and values, decodable from the declared '
     'sizes, types and byte order. This holds for any number of pieces, '
     'arrays, element types, sizes, number types and memory layouts.',
     ['inputs', 'histories'], 'all sequences of valid calls',
     'The tests write one file and look at its size or not at all.', [WR],
     [('base64 array blocks', WR), ('XML elements', WR)],
     ['the written file'], 'Exploration: independent parser and decoder of '
     'the file format.', technique='independent decoder of the written file')
prop('V02', 'Model and results reach the vtu file at the right points',
     'Nodes, elements, node results and element results written as a piece '
     'appear in the file in the node order the format prescribes for the '
     'cell type, every result at the point of its own element node. The '
     'arrays passed in are not changed, so that they can be written again '
     'with the same outcome.',
     ['inputs', 'histories'], S, 'The tests write one element type.',
     [WR, STRUC], [('reordering of nodes and results', WR)],
     ['VtuWriter', 'the written file'], 'Exploration: end to end against the '
     'generated model.', technique=MODEL)
prop('V03', 'Misuse of the vtu writer is refused and leaves no trace',
     'Calls out of order (data without a piece or section) and data arrays '
     'of more than two dimensions raise the writer\'s error, and meshes with '
     'element types that have no cell type raise an error. After that the '
     'writer goes on as if the call had not been made and the finished file '
     'holds exactly the accepted data.',
     ['histories'], 'all sequences of valid and invalid calls',
     'The tests make no invalid calls.', [WR], [('state checks', WR)],
     ['VtuWriter', 'the written file'], 'Exploration over random call '
     'sequences against a state model.',
     technique='call-sequence monitor with a state model')

prop('L01', 'Closing closes everything for good',
     'After closing a file, by itself, through one of its data sets or with '
     'all files, every query of the file and of each data set taken from it '
     'raises the closed-file error, their texts say that they are closed, '
     'closing again does nothing, and no file stays open in the process. '
     'The file can then be opened or replaced. A file that cannot be opened '
     'as data is not left open either.',
     ['histories'], 'all kinds of data, ways of opening and closing, and '
     'later calls', 'The tests close at most one file.', [FILE, SIFD],
     [('closed state checks', SIFD)], ['File', 'data sets',
                                       'open descriptors'],
     'Exploration with descriptor monitors.',
     technique='history exploration with state monitors')
prop('L02', 'Open files do not influence each other',
     'Any number of files and in-memory data can be open together, the same '
     'file several times as well. Every query on one of them gives the '
     'answer it gives alone, whatever is opened, converted, queried or '
     'closed meanwhile.',
     ['histories'], 'all interleavings of opening, querying, converting and '
     'closing', 'The tests use one file at a time.', [FILE, SIFD, CONV],
     [('registry of open files', FILE)], ['open_hdf5', 'open_sif', 'File'],
     'Exploration: random histories against answers recorded alone.',
     technique='history exploration, differential against isolated answers')
prop('L03', 'Queries are repeatable and do not change the data',
     'The same query gives the same answer any number of times, whatever '
     'queries were made before and whatever the caller did to arrays, lists '
     'and dictionaries it was given. Queries change neither the HDF5 file '
     'nor the input files, and work on a read-only file.',
     ['histories'], 'all sequences of queries, with changes of the answers '
     'in between', 'The tests ask once.', [STRUC, HYDRO, SIFD],
     [('cached arrays', HYDRO)], ['all queries', 'the files'],
     'Exploration: random query orders with overwritten answers.',
     technique='history exploration with answer snapshots')
prop('L04', 'Every way to the data gives the same answers',
     'A data set answers every query the same whether it was converted to a '
     'file of its own, appended to a shared file under a prefix, converted '
     'in memory, or opened directly from the interface file.',
     ['configurations', 'inputs'], 'all kinds of data and queries, all ways',
     'Every test knows one way.', [FILE, CONV, SIFD],
     [('ways of opening', FILE)], ['all queries'],
     'Exploration: differential between the ways.',
     technique='differential execution of the ways to the data')
prop('F01', 'A file behaves as a mapping of its data sets',
     'A file gives its data sets by name: names, values, items, membership, '
     'lookup with and without default and iteration (over the data sets) '
     'agree with each other and with what was converted into it, and absent '
     'names raise KeyError or give the default. Each data set is of the kind '
     'of its content and knows its name, and opening a file that does not '
     'exist raises and creates nothing.',
     ['inputs', 'configurations'], 'all combinations of data sets and '
     'prefixes in one file', 'The tests index by one name.', [FILE, SIFD],
     [('mapping interface', FILE)], ['File'], 'Exploration against the list '
     'of what was converted.', technique=MODEL)

exec(open(os.path.join(HERE, 'tools', 'more.py')).read()) if os.path.exists(
    os.path.join(HERE, 'tools', 'more.py')) else None

TRUST = ' Exploration only: nothing is shown beyond the executions made. ' \
        'Trusts numpy, PyTables/HDF5 and h5py.'

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p, _, _ in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
PY = '/opt/venv/bin/python'
man = dict(
    version=1,
    setup_cmd=PY + ' -c "import numpy, tables, h5py"',
    checks=[dict(
        property=p['id'],
        quick_cmd='{} checks/run.py {} --tier quick'.format(PY, p['id']),
        thorough_cmd='{} checks/run.py {} --tier thorough'.format(PY,
                                                                  p['id']),
        technique='runtime monitoring: ' + t,
        level='exploration', level_note=n + TRUST) for p, n, t in P],
    not_applicable=[],
    notes='The checks import freesif from /repo (pure Python, nothing to '
          'build) and observe it at its public interface; no hooks.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(P), 'properties')

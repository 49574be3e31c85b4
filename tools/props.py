"""Text of the properties. P is written to properties.jsonl in this order."""
P = []


def p(id, title, statement, q, why, files, mech, observe=(), over=('inputs', 'histories'), **kw):
    P.append(dict(id=id, title=title, statement=statement, q=q, why=why, files=files, mech=mech, observe=list(observe), over=list(over), **kw))


CB = ['vital/config/config_block.cxx', 'vital/config/config_block.h']
p('C01', 'Configuration store is a map from keys to trimmed values',
  'After any sequence of set and unset calls, a configuration block holds exactly the keys last set and not unset since: lookup of a held key gives the last value set with leading and trailing white space removed, a missing key raises the missing-value error or gives the caller\'s default, and existence queries and the key listing agree with lookup. '
  'The description of a key is the last non-empty one given and survives later sets without a description; unset removes value and description together; no operation on one key changes another key.',
  'every sequence of operations on a configuration block, every key, value and description string',
  'tests set and read a handful of fixed keys; the claim is about every history and every key, including keys that are prefixes of each other, empty values and re-set after unset',
  CB, [('value store and lookup', 'config_block.cxx: i_set_value, set_value, unset_value, i_get_value, has_value, available_values')], ['get_value', 'has_value', 'available_values', 'get_description'])
p('C02', 'Read-only keys never change',
  'Once a key has been marked read-only in a configuration block, no later set, merge or unset through that block or through a view of it changes or removes its value or description: each such attempt raises the corresponding read-only error; a refused set or unset leaves the whole block as it was, and a merge that is refused at a read-only key may have taken over other keys before. Keys not marked are unaffected.',
  'every history containing a mark-read-only, every later operation, directly, through views of any depth and through merge',
  'tests mark one key and try one set and one unset',
  CB, [('read-only list consulted before every write', 'config_block.cxx: i_set_value, unset_value, is_read_only, mark_read_only')], ['set_value_on_read_only_value_exception', 'unset_on_read_only_value_exception'])
p('C03', 'Sub-blocks copy and views alias exactly the keys below a prefix',
  'A sub-block of a configuration for a prefix is an independent block that holds exactly the entries whose key starts with the prefix and the separator, under the remainder of the key (keys of the reserved block named _global aside, which belong to every view); later changes on either side do not show on the other. A view for a prefix reads and writes exactly those entries of the original block at all times: every get, set, unset, existence and description operation on the view has the effect of the same operation on the original with the prefix prepended.',
  'every block content, every prefix (including the empty one and prefixes that are also keys), every nesting depth of views, every sequence of operations interleaved on view and original',
  'tests use one fixed prefix with two keys',
  CB, [('prefixing and delegation to the parent block', 'config_block.cxx: subblock, subblock_view, i_set_value, i_get_value, available_values, strip_block_name')], ['subblock', 'subblock_view'])
p('C04', 'Merging configurations is keywise',
  'Merging block B into block A makes every key of B hold B\'s value in A, keeps every other key of A with its value, and leaves B unchanged. Keys that A alone has keep their description.',
  'every pair of block contents, with overlapping, disjoint, nested and empty key sets',
  'tests merge one pair of small blocks',
  CB, [('merge loop', 'config_block.cxx: merge_config')], ['merge_config'])
p('C05', 'Typed configuration values convert exactly or fail visibly',
  'Reading a key as a type gives the value that formatted stream extraction of that type finds in the stored text (the text itself for strings) or, when there is none, raises the bad-cast error naming key, value and type; with a default argument, a missing or unconvertible value gives the default and never an error. For booleans exactly the words true, yes, 1 and false, no, 0 in any letter case convert; writing a bool, integer or string and reading it back in the same type gives an equal value.',
  'every value string, for bool, integer, floating and string targets, with and without default',
  'tests convert a few literals of each type',
  ['vital/config/config_block.h', 'vital/config/config_block.cxx'],
  [('conversion and error translation', 'config_block.h: config_block_get_value_cast, get_value; config_block.cxx: config_block_get_value_cast<bool>')], ['get_value<T>'])
p('C06', 'Configuration file parsing follows the file format',
  'Reading a configuration file yields exactly the entries written in it: each key is prefixed with the names of all blocks open at that line, later entries override earlier ones, values are trimmed and stripped of comments, macros are expanded, relativepath values are put behind the directory of the file, includes are read in place (looked for in the search path, then in the directories of the including files), entries declared [RO] are read-only, and every entry is located at its file and line. '
  'A key or block name starts with a letter, continues with letters, digits and - . : / _, and does not end in a colon; what follows a block name or endblock on its line is ignored. A malformed line, an unclosed block or an endblock without block raises a parse error that names the file; a missing file or include raises a file-not-found error; a second definition of a read-only entry raises the read-only error; a file that includes itself is an error. '
  'A file name that is not absolute is looked for in the configuration directories in order: the first one found is read, or, when merging, all of them, earlier ones taking precedence.',
  'every file content, every nesting of blocks and includes',
  'tests read a dozen prepared files',
  ['vital/config/config_parser.cxx', 'vital/config/config_block_io.cxx'],
  [('line classification and block context stack', 'config_parser.cxx: process_file, get_line, get_token, parse_config'), ('file search and merging', 'config_block_io.cxx: read_config_file')],
  ['read_config_file'], over=['inputs', 'configurations'])
p('C07', 'Written configurations read back equal',
  'Writing a configuration block to a file and reading that file gives a block with the same keys and values, for every block whose keys and values are expressible in the file format (keys that start with a letter, do not end in a colon and are none of the keywords; single-line values without #, whatever the descriptions and locations). Writing an empty block raises the write error and leaves the file system as it was; writing to a directory, below a file, or to a file that cannot be opened or completely written raises the write error.',
  'every block content made of keys of word characters and colons and single-line values without comment and macro characters, with any descriptions',
  'the tests write one block and compare a couple of values',
  ['vital/config/config_block_io.cxx', 'vital/config/config_parser.cxx'],
  [('writer', 'config_block_io.cxx: write_config_file, write_config, write_cb_comment'), ('reader', 'config_parser.cxx')], ['write_config_file', 'read_config_file'], over=['inputs', 'configurations'])
p('C08', 'Macro expansion replaces exactly the known tokens',
  'Expanding a text replaces every macro $TYPE{name} whose type is registered by the value its provider gives for the name (by nothing when the provider does not know the name), leaves all other text including macros of unknown types and stray dollar signs or braces byte for byte unchanged, and does not expand the replacement again. A symbol table, configuration or environment provider answers exactly with the current value of the named entry.',
  'every text, every set of registered providers and every content of the providers',
  'the tests expand two macros in prepared files',
  ['vital/config/token_expander.cxx', 'vital/config/token_type_symtab.cxx', 'vital/config/token_type_config.cxx', 'vital/config/token_type_env.cxx'],
  [('regular-expression driven scan', 'token_expander.cxx: expand_token'), ('providers', 'token_type_*.cxx: lookup_entry')], ['token_expander::expand_token'])
p('C09', 'Timestamps compare by time, then frame, within one domain',
  'Two timestamps in different time domains never compare as equal, different, less or greater. In one domain they compare by time when both times are valid, otherwise by frame when both frames are valid, otherwise not at all; exactly one of less, equal and greater holds for comparable timestamps and not-equal is the negation of equal there. Each setter changes only its own field and validity flag.',
  'all pairs of timestamps with every combination of validity, domain, time and frame, and all sequences of setters',
  'tests compare a few fixed pairs',
  ['vital/types/timestamp.cxx', 'vital/types/timestamp.h'], [('comparison operators and setters', 'timestamp.cxx')], ['operator==', 'operator<', 'operator>', 'operator!='])
p('C10', 'Image pixel addressing stays inside the pixel memory',
  'For every image an in-range pixel access (column, row, plane) touches exactly the element at first pixel plus the step-weighted coordinates, distinct coordinates of an owned image never share an element and all of them lie inside the allocated memory; an out-of-range access raises an error and touches nothing. An image constructed from sizes and a layout, or resized, has exactly those sizes, the steps of the planar or interleaved layout and memory of exactly that many elements; a resize to the present size changes nothing.',
  'all widths, heights, depths, strides, planar and interleaved layouts, all coordinates',
  'tests look at a few small images and a few pixels',
  ['vital/types/image.h', 'vital/types/image.cxx'], [('at accessors', 'image.h: at'), ('allocation and strides', 'image.cxx: image(ctor), set_size, image_memory')], ['image::at', 'image::operator()', 'size', 'set_size'])
p('C11', 'Image copies, views and comparisons are pixel exact',
  'Copying an image gives equal size and equal pixels whatever the memory layout of source and destination; a deep copy shares no memory, an assignment or construction from another image shares it, and an in-place transform applies the function to every pixel exactly once. A copied or assigned memory block has the size and the bytes of the original in memory of its own. Equality of content holds exactly when sizes and all pixels agree.',
  'all image sizes, depths, layouts (planar, interleaved, flipped, cropped) and contents',
  'tests copy two layouts of one size',
  ['vital/types/image.h', 'vital/types/image.cxx', 'vital/types/image_container.h'], [('layout aware loops', 'image.cxx: copy_from, equal_content, transform_image')], ['copy_from', 'equal_content', 'transform_image'])
p('C12', 'Track history stays ordered by frame and appends are all or nothing',
  'At every moment the states of a track have strictly increasing frame numbers. Appending a state or another track succeeds exactly when it starts after the last frame of the track (or either is empty), adds exactly those states at the end, and on refusal changes nothing; first frame, last frame, size, the set of frames and the lookup by frame describe exactly that history.',
  'every sequence of appended states and tracks, with every frame number',
  'tests append three or four states',
  ['vital/types/track.cxx', 'vital/types/track.h'], [('append guards, binary search', 'track.cxx: append, find, all_frame_ids')], ['append', 'find', 'first_frame', 'last_frame'])
p('C13', 'Track set queries select exactly the matching tracks',
  'For every set of tracks and every frame, the active, inactive, new and terminated tracks, the frame features and descriptors and the fraction of tracks shared by two frames are exactly those given by their definitions on the member tracks, in the order of the set; the frame range, frame set and identifier set are those of the members, and lookup by identifier gives the first such track. Negative frame arguments count from the end of the sequence and tracks without states take part in nothing but inactivity.',
  'every collection of tracks, including empty sets, empty tracks, gaps and duplicate identifiers, every frame argument including negative offsets',
  'the tests use one small generated scene',
  ['vital/types/track_set.cxx', 'vital/types/track_set.h', 'vital/types/track.cxx'], [('selection loops over the members', 'track_set.cxx')], ['active_tracks', 'inactive_tracks', 'new_tracks', 'terminated_tracks', 'percentage_tracked'])
p('C14', 'Packed covariance matrices are symmetric and lossless',
  'A covariance built from a matrix represents its symmetric part exactly; element access gives the same value for (i,j) and (j,i), refers to distinct storage for distinct unordered pairs and never leaves the storage; conversion to a matrix, copying, assignment and precision conversion preserve every element. A covariance made from a scalar is that multiple of the identity.',
  'all matrices, all index pairs, dimensions 2, 3 and 4 in both precisions',
  'no test exercises the packing beyond printing',
  ['vital/types/covariance.h'], [('triangular packing', 'covariance.h: vector_index, covariance_(matrix), matrix, operator()')], ['covariance_::matrix', 'operator()'])
p('C15', 'Rotations and similarities form groups acting on points',
  'Composition, inverse and identity of rotations and of similarity transforms satisfy the group laws and agree with composition of the maps they induce on points, and every accepted representation (quaternion, matrix, axis and angle, Rodrigues vector, yaw pitch roll) of one rotation describes the same map. A similarity acts by rotating, scaling and translating, its matrix form acts alike in homogeneous coordinates, and rotation angle and axis of a unit quaternion reproduce it.',
  'all rotations, scales different from zero, translations and points, over the reals',
  'tests compare a few random instances numerically',
  ['vital/types/rotation.h', 'vital/types/rotation.cxx', 'vital/types/similarity.h', 'vital/types/similarity.cxx'], [('quaternion arithmetic', 'rotation.h/.cxx'), ('similarity composition', 'similarity.h/.cxx')], ['operator*', 'inverse', 'angle_from_last'])
p('C16', 'Homographies compose, invert and map points projectively',
  'Mapping a point by a homography gives the dehomogenized product of matrix and homogeneous point and fails with the at-infinity error exactly when the third coordinate of the product vanishes within the precision of the number type; composition corresponds to the matrix product, inverse to the matrix inverse (an error for matrices whose determinant vanishes within that precision), normalization does not change the map and gives a last element of one where there is a scale, and copies and clones are independent. A frame-to-frame homography composes only when the inner frames agree (error otherwise), from and to frames follow the composition, and inversion swaps them.',
  'all invertible matrices and all points over the reals, all frame numbers',
  'tests map a few points with two matrices',
  ['vital/types/homography.h', 'vital/types/homography.cxx', 'vital/types/homography_f2f.cxx', 'vital/types/homography_f2w.cxx'], [('projective mapping', 'homography.cxx: map, h_map_point'), ('frame bookkeeping', 'homography_f2f.cxx: operator*, inverse')], ['map', 'operator*', 'inverse'])
p('C17', 'Camera projection follows the pinhole model',
  'Projecting a world point equals applying rotation, translation, perspective division, lens distortion and calibration in that order, and for a lens without distortion the dehomogenized product of the camera matrix; center and translation describe the same pose (also after either is set), depth is the coordinate along the viewing axis, the calibration matrix and the accessors agree with the values given, distortion follows the radial and tangential model with as many terms as there are coefficients, undistortion inverts mild distortion by Newton steps with the exact derivative, mapping to and from image coordinates are inverse for a lens without distortion, and looking at a point puts it on the principal axis in front of the camera with the requested up direction upwards in the image. Cloning and copying preserve the camera and the calibration.',
  'all poses with unit rotations, calibrations with non-zero focal length and aspect ratio and points with non-zero depth, over the reals; any number of distortion coefficients',
  'tests project a few points of one camera',
  ['vital/types/camera.h', 'vital/types/camera.cxx', 'vital/types/camera_intrinsics.h', 'vital/types/camera_intrinsics.cxx'], [('projection', 'camera.cxx: project, depth, as_matrix, look_at'), ('distortion', 'camera_intrinsics.cxx: distort, map, unmap, distortion_jacobian')], ['project', 'depth', 'map', 'unmap'])
p('C18', 'Matrix enumeration visits every entry once with its own indices',
  'Iterating over a sparse matrix with the index-aware enumeration visits every stored entry exactly once, in storage order, and reports the row, column and value of that entry; iterators compare equal exactly at the same position and an empty matrix yields nothing.',
  'all shapes including empty ones, row and column major, compressed or not',
  'tests enumerate three small matrices',
  ['vital/util/enumerate_matrix.h'], [('outer and inner iteration', 'enumerate_matrix.h: matrix_iterator')], ['enumerate'])
p('C19', 'Tokenizing splits a string at delimiters and loses nothing',
  'Tokenizing appends to the output list, in order, exactly the maximal pieces of the input between delimiter characters; joined with the delimiters they give the input back when empty pieces are kept, and when they are trimmed exactly the non-empty pieces are kept. Prior content of the list and the input are unchanged.',
  'every input string, every delimiter set including the empty one, both trimming modes',
  'no test calls it directly',
  ['vital/util/tokenize.h'], [('find_first_of loop', 'tokenize.h: tokenize')], ['tokenize'])
p('C20', 'Geographic coordinates know whether they are valid',
  'A coordinate pair is valid exactly when latitude and longitude lie within their ranges, a default constructed one is the empty pair and only that is empty, setters and copies store exactly the given numbers, and equality holds exactly for equal latitude and longitude.',
  'all pairs of numbers',
  'no test covers it',
  ['vital/types/geo_lat_lon.h', 'vital/types/geo_lat_lon.cxx'], [('range tests', 'geo_lat_lon.cxx: is_valid, operator==')], ['is_valid', 'operator=='])
p('C21', 'Track, landmark and camera files round trip',
  'Writing tracks, landmarks or a camera to their text formats and reading the file back gives the same identifiers, frames, coordinates and camera parameters. Reading a malformed or truncated file raises an error or ignores the malformed part, and never accesses memory it does not own.',
  'every collection within the format, every byte sequence as input file',
  'the tests read and write one prepared file of some of the formats',
  ['vital/io/track_set_io.cxx', 'vital/io/landmark_map_io.cxx', 'vital/io/camera_io.cxx', 'vital/io/eigen_io.h'], [('text readers and writers', 'vital/io/*.cxx')], ['write_track_file', 'read_track_file', 'write_ply_file', 'read_ply_file', 'write_krtd_file', 'read_krtd_file'], over=['inputs'])
p('C22', 'C handles keep their objects alive and resolve to the right one',
  'A handle handed out by the C interface denotes the object it was created for until it is destroyed as many times as it was handed out; while live it keeps the object alive, after that the entry is gone, and using an unknown handle reports an error instead of reaching another object. Entries of different objects never interfere.',
  'every interleaving of store, look-up and erase calls on any set of handles',
  'the C tests create and destroy single objects',
  ['vital/bindings/c/helpers/c_utils.h'], [('handle caches', 'c_utils.h: SharedPointerCache')], ['vital_*_new', 'vital_*_destroy'])
p('C23', 'Strings and errors cross the C interface intact',
  'Every string, string list and error message handed to C callers is a complete, terminated copy of the C++ value (strings without embedded NUL) in memory of sufficient size; an exception inside a C entry point never escapes but yields the documented error code and its message; without an exception the error handle stays at success and the result is that of the wrapped C++ function.',
  'all string contents and lengths, all lists, all entry points, with and without an error handle',
  'the C tests read back short strings, which do not show an overrun of one byte',
  ['vital/bindings/c/helpers/c_utils.h', 'vital/bindings/c/helpers/c_utils.cxx', 'vital/bindings/c/common.cxx', 'vital/bindings/c/config_block.cxx', 'vital/bindings/c/error_handle.cxx'], [('copying helpers and try/catch macros', 'c_utils.h: POPULATE_EH, STANDARD_CATCH; c_utils.cxx: make_string_list')], ['vital_string_new', 'vital_config_block_available_values', 'vital_error_handle_t'])
p('C24', 'Algorithm creation by name finds exactly the registered one',
  'Creating an algorithm by type and implementation name gives a new copy of exactly the implementation last registered under that name, or nothing for names that are not registered; the registered name listings and existence tests agree with the registrations. Writing a nested algorithm into a configuration and building it from that configuration gives the same implementation with the same parameters and leaves every other entry alone; the configuration check accepts exactly those configurations that name a registered implementation which accepts its own part of them, and from any other name nothing is built.',
  'every set of registrations, every non-empty type and implementation name, every nested configuration',
  'tests register a single dummy algorithm',
  ['vital/registrar.h', 'vital/registrar.cxx', 'vital/algo/algorithm.h', 'vital/algo/algorithm.cxx', 'vital/algo/algorithm.txx'], [('registration map', 'registrar.h: register_item, find, registered_names'), ('nested configuration', 'algorithm.cxx: get_nested_algo_configuration, set_nested_algo_configuration, check_nested_algo_configuration')], ['create', 'registered_names', 'check_nested_algo_configuration'])
p('C25', 'Essential and fundamental matrices describe the epipolar geometry',
  'An essential matrix built from a rotation and a translation is the cross-product matrix of the unit translation times the rotation, returns that rotation and direction, and its twisted rotation is the rotation followed by a half turn about the translation, which gives the opposite matrix; built from any matrix it has a proper rotation and a unit translation and is a closest essential matrix, the given one up to scale and sign where that was essential already. A fundamental matrix built from any matrix is singular, of Frobenius norm one and closest to it, a singular one only scaled. Copies and clones keep the matrices.',
  'all rotations, all translations different from zero and all matrices over the reals',
  'tests check a few random instances numerically',
  ['vital/types/essential_matrix.h', 'vital/types/essential_matrix.cxx', 'vital/types/fundamental_matrix.h', 'vital/types/fundamental_matrix.cxx'], [('construction', 'essential_matrix.cxx, fundamental_matrix.cxx')], ['essential_matrix::matrix', 'twisted_rotation'])
p('C26', 'Features, descriptors and landmarks keep what was stored',
  'Features, descriptors and landmarks return exactly the values last given to their constructors and setters, in either precision up to rounding; copies and clones are equal and independent; equality, the raw byte view and the listing of sets agree with the stored values.',
  'all values of every field, both precisions, all set sizes',
  'tests touch a few of them indirectly',
  ['vital/types/feature.h', 'vital/types/feature.cxx', 'vital/types/descriptor.h', 'vital/types/landmark.h', 'vital/types/landmark.cxx', 'vital/types/color.h'], [('value classes', 'feature.h, descriptor.h, landmark.h')], ['feature_', 'descriptor_array_of', 'landmark_'])
p('C27', 'Image file access is checked before any plugin code runs',
  'Loading an image whose path does not exist or is no regular file, and saving into a directory that does not exist, raises the documented path error before the implementation is called; otherwise the implementation is called exactly once with the given path and its result is returned unchanged.',
  'all paths and file system states, all implementations',
  'no test covers it',
  ['vital/algo/image_io.cxx'], [('precondition checks before the virtual call', 'image_io.cxx: load, save')], ['image_io::load', 'image_io::save'], over=['inputs', 'configurations'])
p('C28', 'Descriptor and feature filtering keeps pairs together',
  'Filtering a feature set together with its descriptors gives the feature set that the filter keeps and, in the same order, exactly the descriptors at the positions the filter reports as kept (a filter reports positions inside the given sets), and leaves the inputs unchanged. Filtering without descriptors keeps the same features.',
  'all feature and descriptor sets, all filters',
  'no test covers it',
  ['vital/algo/filter_features.cxx'], [('index based selection', 'filter_features.cxx: filter')], ['filter_features::filter'])
p('C29', 'Path manipulation of the system tools layer is purely textual and consistent',
  'For every text taken as a path (home directory names "~" aside): SplitPath gives the root ("//", "/", a drive with its separator, or nothing) and then exactly the pieces between separators ("/" or a backslash), in order; JoinPath concatenates components, with a slash before every one from the third on, so joining the components of a path written with single slashes gives that path back; CollapseFullPath of a path and a base is the join of the components left after "." and empty ones are dropped and each ".." removes the component before it, never the root, and collapsing the result again changes nothing. GetFilenameName is what follows the last slash (for the slash-terminated parts, GetFilenamePath what precedes it, after converting to forward slashes), and the name is always its part without extension followed by the extension, for the longest and for the last extension alike. LowerCase, UpperCase, Capitalized, CapitalizedWords and UnCapitalizedWords change exactly the letters they name and nothing else; Split(text, lines[, separator]) appends exactly the pieces between separators, in order, keeps what the vector held, and tells whether the text ended with the separator; ReplaceString replaces every occurrence, StringStartsWith and StringEndsWith, CropString and the character filters do what their names say for every text.',
  'all strings as paths and texts',
  'tests check a table of examples; doubled separators, "..", drives, missing roots and dots in odd places combine without bound',
  ['vital/kwiversys/SystemTools.cxx'], [('string algorithms', 'SystemTools.cxx: SplitPath, SplitPathRootComponent, JoinPath, CollapseFullPath, SystemToolsAppendComponents, GetFilenameName, Split, LowerCase')], ['kwiversys::SystemTools'])
p('C30', 'Process control delivers output, exit status and timeouts faithfully',
  'A child process run through the process layer has all its output delivered in order to the reader, its exit status or signal reported, and is ended when its time limit passes, whatever the timing of output and exit.',
  'all schedules of parent and child and all outputs',
  'tests run a handful of children',
  ['vital/kwiversys/ProcessUNIX.c'], [('select loop over pipes', 'ProcessUNIX.c')], ['kwsysProcess_WaitForData'], over=['schedules', 'fault_sequences'],
  na='the behaviour is that of the operating system across fork, pipes, signals and select; contracts on the C functions could only restate assumed contracts of those system calls, so nothing would be decided about schedules')

# The properties, as data. tools/gen.py writes properties.jsonl and MANIFEST.json from it.
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, bounds=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe or [], bounds=bounds))

prop('P01', 'Reduced-precision numbers convert within their documented error',
 "Converting a 32-bit float to the 16-bit or 8-bit format and back preserves zero, infinities, NaN and sign, saturates instead of wrapping, never reverses the order of two values, and is off by at most half a step of the 8-bit format (values beyond its largest fraction keep to it) and by less than a step of the 16-bit format, which cuts off; a value already representable comes back unchanged. The 8-bit arithmetic equals computing in 32 bits and rounding once, and tensors stored at 8, 16 or 32 bits return exactly the converted elements.",
 ['inputs', 'configurations'], 'every 32-bit pattern (all finite values, subnormals, infinities, NaNs), every 16-bit and 8-bit code, every 8-bit bias in the supported range',
 'The tests convert a few dozen hand-picked values; the claim is over 2^32 inputs and every bias.',
 ['src/types/half_float.hpp', 'src/types/quarter_float.hpp', 'src/types/tensor_impls/half_tensor.hpp', 'src/types/tensor_impls/quarter_tensor.hpp', 'src/util/tensor_utils.hpp'],
 [('floatToHalf / halfToFloat', 'src/types/half_float.hpp'), ('floatToQuarter / quarterToFloat and the quarter operators', 'src/types/quarter_float.hpp'), ('materializeTensor and estimateBias', 'src/util/tensor_utils.hpp')],
 bounds='conversions: all 2^32 floats, all codes, biases 1..15; tensors up to 2x2x2, by every constructor')
prop('P02', 'Tensor files reload exactly what was saved',
 "Saving a tensor and loading it again, at full, 16-bit, 8-bit or pixel storage, gives a tensor of the same shape whose elements equal the saved ones bit for bit (at the precision of the storage), and several tensors written one after the other to a stream are read back in order without disturbing each other. The file layout is big-endian with a three-number header, independently of the tensor having been a view, and saving over an existing file leaves only the new contents.",
 ['inputs', 'configurations'], 'every element bit pattern, shapes up to 2-3 channels x 3 rows x 3-4 columns, every storage type',
 'The tests save one small integer matrix; the claim quantifies over all bit patterns, all shapes and all storage types.',
 ['src/util/portable_bytes.hpp', 'src/types/base_tensors.hpp', 'src/types/tensor_impls/full_tensor.hpp', 'src/types/tensor_impls/half_tensor.hpp', 'src/types/tensor_impls/quarter_tensor.hpp', 'src/types/tensor_impls/pixel_tensor.hpp', 'src/util/tensor_utils.hpp'],
 [('BaseTensor::save, stream constructors', 'src/types/base_tensors.hpp'), ('portableBytes', 'src/util/portable_bytes.hpp')],
 bounds='shapes up to 2x3x3 (3x3x4 thorough), every bit pattern of every element; single shapes up to 133 elements')
prop('P03', 'Binary dataset files return every row and column description as written',
 "A binary dataset file gives back, in any order of access, exactly the rows that were written and every field of every column description; images come back as 8-bit pixels and labels exactly; indexes past the end, missing files and mismatched rescaling requests are refused with an error. A row is skipped on writing exactly when its inputs equal those of a row still in the duplicate window (equality to 15 decimals); a file cut short in its rows serves exactly the complete rows. When rescaling is requested each column is taken from its own stored scale to its own requested scale; labels listed in another order are matched by their names, and a label the other side does not know is refused.",
 ['inputs', 'histories', 'crash_points'], 'every value, name and label byte, flag and statistic; column shapes up to 2x2x3, up to 3 rows; every cut point within the rows; every sequence of 4-5 row writes over 4 distinct inputs and window sizes 0..3',
 'The tests write one row with two columns; they never vary metadata, duplicates, truncation or rescaling.',
 ['src/util/file_writer.hpp', 'src/util/file_reader.hpp', 'src/util/column_metadata.hpp', 'src/util/lru_cache.h', 'src/util/tensor_utils.hpp'],
 [('BinaryDatasetWriter header/rows and duplicate window', 'src/util/file_writer.hpp'), ('BinaryDatasetReader header/readRow', 'src/util/file_reader.hpp'), ('renormalizeAndStandardize', 'src/util/tensor_utils.hpp')],
 bounds='2+1 columns, names/labels to 2 arbitrary bytes, 3 rows, every truncation point; 130 rows of 9 columns with windows up to 100')
prop('P04', 'Delimited text survives writing, reading and conversion',
 "A record of values written with any supported delimiter is read back with the same number of columns and the same values, apart from outer blanks and one pair of enclosing quotes, whatever delimiters, quotes, line breaks or escape-like text they contain; conventionally quoted files with LF or CRLF line ends are read as such. Reading any bytes ends with records or one clean error for an unclosed quote, and every data line of every file of a directory is served exactly once. Converting tab-separated or plain text to comma-separated text keeps every value and every word exactly once and in order, and a saved configuration reads back unchanged.",
 ['inputs', 'configurations'], 'every value of up to 3 arbitrary bytes (and number-like, escape-like and quote-like prefixes), delimiters comma, colon, tab, bar; every file of up to 4-5 arbitrary bytes; directories of 3 files of up to 2 lines',
 'The tests round-trip a handful of fixed records; the failures live in combinations of quotes, escapes, numbers and delimiters.',
 ['src/util/text_encoder_decoder.hpp', 'src/util/file_writer.hpp', 'src/util/file_reader.hpp', 'src/util/dataset_utils.hpp', 'src/training_data/data_encoder.hpp'],
 [('TextEncoderDecoder', 'src/util/text_encoder_decoder.hpp'), ('DelimitedTextFileWriter::writeRecord', 'src/util/file_writer.hpp'), ('DelimitedTextFileReader::nextRecord, TextLinePathReader', 'src/util/file_reader.hpp'), ('convert_tsv_to_csv, convert_txt_to_csv', 'src/util/dataset_utils.hpp')],
 bounds='values to 3 arbitrary bytes, files to 4 arbitrary bytes (5 thorough); values of 8191 characters, 70 columns, 13 files with one free byte')

prop('P05', 'Datasets are created, shuffled, split and served without losing records',
 "Every pass over a dataset (in memory or file, shuffled or not, restarted at any point) serves every record exactly once with its inputs and expected outputs kept together, and datasets sharing a shuffler stay aligned. The two sides of a split together cover every record exactly once. Creating a dataset from a delimited file writes one row per distinct input with values recoverable through the stored column descriptions, one-hot labels that belong to their inputs, and columns in the order asked for; overlapping column groups are reported exactly when two groups claim the same column; unreadable or ill-specified sources are refused and leave no dataset.",
 ['inputs', 'configurations', 'histories'], 'up to 6-12 records, every shuffle mode and restart, split fractions 0.5..1 (every float for the counts), 1-3 column groups with symbolic positions and sizes, created files of up to 2-3 rows over number, label, delimiter, header and column-order choices',
 'The tests serve one small dataset and never split, reorder, refuse or recover values across combinations.',
 ['src/training_data/training_dataset.hpp', 'src/util/shuffler.hpp', 'src/util/dataset_utils.hpp', 'src/lang/statements/create_dataset_statement.hpp', 'src/util/file_reader.hpp', 'src/util/file_writer.hpp'],
 [('BinaryDataSet / InMemoryTrainingDataSet', 'src/training_data/training_dataset.hpp'), ('Shuffler', 'src/util/shuffler.hpp'), ('sort_and_check_overlaps, update_column_positions, create_binary_dataset_from_delimited_values', 'src/util/dataset_utils.hpp'), ('CreateDatasetStatement::execute', 'src/lang/statements/create_dataset_statement.hpp')],
 bounds='up to 12 records (257 in one shape), 3 column groups, 3 created rows')

prop('P06', 'Text helpers neither lose nor invent text',
 "Splitting text into tokens keeps every word, blank and punctuation character in order: joined together the tokens are the text without carriage returns and immediately repeated blanks and with unprintable bytes shown as one marker; no token is empty, white space starts a token and punctuation stands alone, except a point after a digit. A file gives the same tokens as its text whatever the read buffer, and every line of a file is returned once. Replacing text substitutes every occurrence once from left to right; splitting data into two sets keeps every text exactly once; a trie finds a word, prefix, value or longest completion exactly when it was inserted; preparing a folder for saved knowledge returns an empty folder and, unless overwriting was asked for, leaves what was saved before untouched.",
 ['inputs', 'configurations'], 'every text of up to 3 arbitrary bytes (4 thorough) and combinations of 3-4 fragments, files longer than the 32K read buffer, replacements over texts of up to 4 characters, up to 9 texts to split, up to 2-3 words in a trie',
 'The tests tokenise a few sentences; the claims are about every byte, every boundary and every overlap.',
 ['src/util/data_util.hpp', 'src/types/trie.hpp', 'src/training_data/data_encoder.hpp'],
 [('append_character, string_to_tokens, load_file_to_tokens, load_file_to_lines', 'src/util/data_util.hpp'), ('string_replace_all and the 16-bit forms, splitData, sampleData, initialize_knowledge_path_directory', 'src/util/data_util.hpp'), ('Trie', 'src/types/trie.hpp')],
 bounds='texts to 3 arbitrary bytes (4 thorough), 32K+5 byte files')
prop('P07', 'Byte pair encoding loses nothing and survives saving',
 "Decoding an encoded text gives the text back for every text and every model: untrained, trained on any texts (empty ones included), trained again, trained from a file or folder, or configured with a consistent set of codes. The encoding is never longer than the text plus its two delimiters. Learned codes are distinct, lie between the delimiter and the largest code and stand for older symbols; training again keeps the codes learned before. A model loaded from its file has exactly the saved codes, delimiter, encoding and largest code, whatever the loading model knew before; missing files and empty folders are reported.",
 ['inputs', 'histories', 'configurations'], 'every text of up to 3 arbitrary bytes, and arbitrary bytes around learned words; 9 training corpora x minimum frequencies x merge limits x delimiters, all pairs of trainings, every consistent set of 1-2 codes (3 thorough), arbitrary 16-bit symbols in saved codes',
 'The tests encode a few words with one or two models; they never retrain, reload over another model or use arbitrary bytes.',
 ['src/ml/byte_pair_encoder.hpp', 'src/util/data_util.hpp'],
 [('encode, decode, train, train_on_file, train_on_folder', 'src/ml/byte_pair_encoder.hpp'), ('save, load, configure', 'src/ml/byte_pair_encoder.hpp')],
 bounds='texts to 3 arbitrary bytes, 9 corpora, up to 2 trainings')
prop('P08', 'Values are encoded into tensors and decoded back without error',
 "One-hot encodings hold a single one at the code, character or word (zeros when it has no place) inside vectors of the stated size; padding keeps the tokens and adds zeros. Numbers and pixels are laid out channel by channel, row by row; text that is not wholly a number is refused. Labels become one-hot rows and the same label comes back; unknown labels and wrong counts are refused. The best decoded label has a greatest score and the top labels come in falling order without repeats. Inputs given to a task are laid out and scaled exactly as its dataset's rows and decoding undoes the scaling. A decoded image has a line per two rows whose characters follow the brightness relative to the brightest cell; printed results show every row once, under its names.",
 ['inputs', 'configurations'], 'every 16-bit code, every byte, every float score for up to 3 labels, every float input value, shapes up to 2x2x3, all label/row/blank combinations, 4 brightness levels on images up to 3x2',
 'The tests encode a few ASCII tokens and never check layout, scaling, refusal or score ties.',
 ['src/util/one_hot_encoder.hpp', 'src/training_data/data_encoder.hpp', 'src/training_data/data_decoder.hpp', 'src/lang/happyml_variant.hpp', 'src/util/encoder_decoder_builder.hpp', 'src/util/pretty_print_row.hpp'],
 [('one_hot_encode_*', 'src/util/one_hot_encoder.hpp'), ('TextToPixelEncoder, TextToScalarEncoder, TextToUniqueCategoryEncoder, HappyMLVariantEncoder', 'src/training_data/data_encoder.hpp'), ('RawDecoder, BestTextCategoryDecoder, ImageDecoder', 'src/training_data/data_decoder.hpp'), ('pretty_print', 'src/util/pretty_print_row.hpp')],
 bounds='shapes to 2x2x3, up to 4 labels (130 in one case), images to 3x2')

prop('P09', 'Scripts are read as written: tokens, statements and errors',
 "The tokens of a script are consecutive pieces of its text; between them lie only blanks and comments, and text that cannot be read gives an error with a message. Keywords count in any case but only as whole words, strings end at the first unescaped quote, comments end with their line, numbers are read whole. Every documented statement is accepted, in any case, alone or followed by others (help never swallows the next statement). A statement cut short, with a foreign word in place of one of its own, a stray byte or a number out of range is either a statement or reported as a parse error with a message: no text makes the parser throw or crash.",
 ['inputs'], 'every text up to 1 byte (quick) or 2 bytes (thorough), any byte after/between tokens, 10 keywords with 8 endings, strings of up to 3 bytes with quotes and backslashes, numbers of up to 2+2 digits, 12 statements cut at every word or with any word replaced by 12 others',
 'The tests lex and parse a few well-formed scripts; they never cut, corrupt or exhaustively scan input.',
 ['src/lang/lexer/lexer.hpp', 'src/lang/lexer/lexer_patterns.hpp', 'src/lang/lexer/token.hpp', 'src/lang/parser/parser.hpp', 'src/lang/happyml_script_init.hpp'],
 [('Lexer::lex, patterns', 'src/lang/lexer/lexer.hpp'), ('TokenStream', 'src/lang/lexer/token.hpp'), ('Parser::parse', 'src/lang/parser/parser.hpp'), ('initializeHappymlLexer, initializeHappymlParser', 'src/lang/happyml_script_init.hpp')],
 bounds='texts to 2 bytes, one free byte next to 7x7 token kinds, 12 documented statements')
prop('P10', 'Running scripts: order, errors, exit, files and sessions',
 "The statements of a script run once each, in order, until one fails or exit is reached; the failure is written to the error stream and exit is reported exactly when reached. A script that does not parse does nothing at all. A script file does what its text does, a script that cannot be opened is reported, and datasets made by one script serve the next. An interactive session answers every line like a script of its own, prompts again after empty lines and errors, joins lines ending in a backslash and stops at exit. Creating a dataset that exists says so and leaves it unchanged; using a dataset or task that does not exist is a reported failure. print shows the first rows up to its limit, all without one. A column declared as name, (n), (r,c) or (r,c,ch) at a position reads r*c*ch source columns from there, row by row, with or without a header, wherever its clause stands, under the name given. Task inputs are what the script wrote: quotes undone, names in any case, lists in order.",
 ['inputs', 'histories'], 'all sequences of up to 2 (thorough: 3) out of 10 statements, 3 separators, text or file; all interactive sessions of up to 2 (3) out of 12 lines; 9 malformed statements; shapes up to 2x2x2 at positions 0..2; limits 0..4 on 3 rows; 9 input values',
 'The tests run a handful of scripts and never check order, failure, exit or what the declared shapes read.',
 ['src/lang/interpreter.hpp', 'src/lang/statements/code_block_statement.hpp', 'src/lang/statements/create_dataset_statement.hpp', 'src/lang/statements/create_task_statement.hpp', 'src/lang/statements/execute_task_statement.hpp', 'src/lang/statements/print_statement.hpp', 'src/lang/statements/help_statement.hpp', 'src/lang/statements/exit_statement.hpp', 'src/lang/parser/parser.hpp', 'src/util/pretty_print_row.hpp'],
 [('InterpreterSession::interpretCommands, interpretFile, interactiveInterpret', 'src/lang/interpreter.hpp'), ('CodeBlock::execute', 'src/lang/statements/code_block_statement.hpp'), ('CreateDatasetStatement::execute', 'src/lang/statements/create_dataset_statement.hpp'), ('PrintStatement::execute', 'src/lang/statements/print_statement.hpp'), ('ExecuteTaskStatement::execute', 'src/lang/statements/execute_task_statement.hpp'), ('Parser::parse', 'src/lang/parser/parser.hpp')],
 bounds='sequences of 2-3 statements/lines, shapes to 2x2x2, 3-row datasets')

prop('P11', 'Tensor views show their operation element by element',
 "Every tensor view shows, at each row, column and channel, its operation on its source's elements: absolute value, square root, rounding, exp, log2, adding, subtracting, multiplying and dividing by a scalar on either side, less-than, function transforms, sums, differences, products and quotients of two tensors (a zero divisor counts as 1e-8), clipping into a range, log of the value limited to 1e-8..1, inverse 1/(x+1e-8), power. Views that move elements put each one exactly where it belongs: transpose, rotation by 180 degrees, row and column flattening and reshaping (row by row, channel by channel), column window (anything outside is refused), zero padding per side, one channel, two tensors side by side, channel sums, sum into one of several channels; a masked select shows the second tensor where the mask exceeds the threshold and the third elsewhere. Views of other-shaped operands are refused. Uniform, identity and function tensors show their definition everywhere. A view reports its size and shape, contains its sources, leaves them untouched, and keeps every value bit for bit when stored at 32 bits; at 16 and 8 bits it keeps the nearest representable value.",
 ['inputs'], 'every bit pattern of every element (including NaN, infinities, denormals) and of the scalar; shapes up to 2x3 (thorough 2x4) with up to 2 channels; two views deep',
 'The tests show a handful of views on one tensor of small whole numbers each and never several channels, special values or nested views.',
 ['src/types/base_tensors.hpp', 'src/types/tensor_views/', 'src/types/tensor_impls/', 'src/util/tensor_utils.hpp'],
 [('BaseTensor and its operator views', 'src/types/base_tensors.hpp'), ('element-wise and moving tensor views', 'src/types/tensor_views/masked_select_tensor_view.hpp'), ('FullTensor, UniformTensor, IdentityTensor, TensorFromFunction', 'src/types/tensor_impls/full_tensor.hpp'), ('materializeTensor', 'src/util/tensor_utils.hpp')],
 bounds='up to 2 channels, 2 rows, 3 columns, and fixed larger shapes (5x3x35, 1x34x2, 18x1x3, 1x1x133) with one symbolic element; exp/log/log2/pow are compared as functions of equal arguments')
prop('P12', 'Matrix products, inverses and correlations are exact',
 "The product of two matrices holds, channel by channel, the sums of products of rows and columns, is associative, keeps a matrix multiplied by the identity, and is refused exactly when inner sizes or channel counts differ. Dot and outer products of vectors are the textbook ones. A diagonal tensor carries a vector's elements on its diagonal and zeros elsewhere. A matrix times its inverse, from either side and in each channel, is the identity; a singular or non-square matrix is refused. A quotient of matrices times the divisor is the dividend. A valid cross correlation holds, for every placement of the kernel inside the tensor, the sum of the products; a full one pads the tensor by the kernel size less one on every side; a convolution turns the kernel by 180 degrees; a kernel larger than the tensor is refused.",
 ['inputs'], 'all whole-number elements within the stated ranges (products and correlations: -50..50 and -30..30 symbolic; inverses: every matrix with entries -1..2 up to 2x2 and 0/1 entries 3x3), shapes up to 3x3, kernels up to 3x3 (valid) and 5x5 (full), 2 channels',
 'The tests check one or two fixed matrices per operation; none uses a non-square kernel, several channels or a matrix that needs row swaps.',
 ['src/types/tensor_views/matrix_multiply_tensor_view.hpp', 'src/types/tensor_views/dot_product_tensor_view.hpp', 'src/types/tensor_views/outer_product_tensor_view.hpp', 'src/types/tensor_views/inverse_tensor_view.hpp', 'src/types/tensor_views/matrix_divide_tensor_view.hpp', 'src/types/tensor_views/diagonal_tensor_view.hpp', 'src/types/tensor_views/valid_2d_cross_correlation_tensor_view.hpp', 'src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp', 'src/types/tensor_views/full_2d_convolve_tensor_view.hpp'],
 [('MatrixMultiplyTensorView', 'src/types/tensor_views/matrix_multiply_tensor_view.hpp'), ('inverse_tensor', 'src/types/tensor_views/inverse_tensor_view.hpp'), ('Valid2DCrossCorrelationTensorView', 'src/types/tensor_views/valid_2d_cross_correlation_tensor_view.hpp'), ('Full2DCrossCorrelationTensorView, Full2DConvolveTensorView', 'src/types/tensor_views/full_2d_convolve_tensor_view.hpp')],
 bounds='matrices to 3x3, kernels to 5x5, 2 channels, whole-number entries; products, inverses and correlations of single larger matrices (up to 35 rows or columns)')
prop('P13', 'Sums, extremes, searches and statistics cover every element',
 "Sum, product, maximum, minimum, range and largest magnitude of a tensor are those of all its elements in all channels. NaN and infinity are found wherever they are. The greatest and least index of a row or column of any channel are the first such, the lists of all greatest or least are complete and in order, row values are those of the row and channel asked for, and the top n of a row are n distinct places in falling order with none greater left out (all of them when the row is shorter). Mean, variance, variance around a point, standard deviation and Euclidean norm (0 for a zero tensor) are the population's; the geometric mean is NaN unless every value is positive. assertEqual accepts equal tensors and refuses tensors of another shape or with an element further away than 1% + 0.01. Mean, deviation and range over several tensors are those of all their values together, whether computed at once or accumulated one tensor at a time.",
 ['inputs'], 'every bit pattern for extremes and NaN/infinity search; whole numbers -20..20 for sums, -3..3 for searches, -2..3 for statistics of up to 3 (thorough 4) values; up to 2 channels, 2-3 rows, 3 columns, any position',
 'The tests compute a few statistics of one small matrix with a single channel.',
 ['src/types/base_tensors.hpp', 'src/util/tensor_utils.hpp'],
 [('BaseTensor reductions and searches', 'src/types/base_tensors.hpp'), ('calcStandardizationValuesForEntireSet, calcNormalizationValuesForEntireSet, update_standardization_normalization_values_calculation', 'src/util/tensor_utils.hpp'), ('assertEqual, hasInvalidValues, maxIndex', 'src/util/tensor_utils.hpp')],
 bounds='up to 2 channels x 3 rows x 3 columns, and fixed larger shapes with one symbolic element; statistics within 1e-4')

prop('P14', 'Standardizing and normalizing scale as defined and can be undone',
 "Standardizing a value with a mean and deviation gives (v - mean) / deviation and unstandardizing v * deviation + mean; normalizing with a range gives (v - min) / (max - min), or v - min when max equals min, and denormalizing v * (max - min) + min; each leaves its source untouched and keeps its shape. Without given values a tensor is standardized by the mean and population deviation of all its own elements (a deviation of 1 when they are all equal) and normalized by its own least and greatest element. Unstandardizing a standardized tensor, and denormalizing a normalized one, gives back the original. A dataset column is scaled by standardizing first and normalizing second, each only when its metadata says so, and unscaled in the opposite order, so that scaling and unscaling a column returns its values. Moving a tensor from one dataset's scale to another's goes through the original values, and moving it to the same scale changes nothing.",
 ['inputs'], 'every bit pattern of the value, mean, deviation and range for the formulas; a grid of small values for the round trips; 1-2 channels and rows, 1-2 (thorough 3) columns; every combination of normalized/standardized flags',
 'The tests print standardized tensors or check one fixed tensor; nothing checks that scaling a dataset column and unscaling a prediction are inverse.',
 ['src/types/tensor_views/standardize_tensor_view.hpp', 'src/types/tensor_views/unstandardize_tensor_view.hpp', 'src/types/tensor_views/normalize_tensor_view.hpp', 'src/types/tensor_views/denormalize_tensor_view.hpp', 'src/util/dataset_utils.hpp', 'src/util/tensor_utils.hpp'],
 [('Standardize/Unstandardize/Normalize/DenormalizeTensorView', 'src/types/tensor_views/standardize_tensor_view.hpp'), ('standardize_and_normalize, unstandardize_and_denormalize', 'src/util/dataset_utils.hpp'), ('renormalizeAndStandardize', 'src/util/tensor_utils.hpp')],
 bounds='up to 2 channels x 2 rows x 3 columns; tensors of up to 4 elements for a tensor\'s own scale; formulas also for larger shapes; round trips within 1e-4')

prop('P15', 'Sorting a text file keeps exactly its lines, in order',
 "Sorting a file, in memory or over many chunks, writes its non-empty lines in byte order: each line once when duplicates are to be removed, each as often as it occurred otherwise, and no other line. A header line stays first and is not sorted. The source file (unless it is the result file as well) and every other file in its folder and in the folder of the result stay as they were, nothing but the result is left behind, and a source that does not exist is reported with false.",
 ['inputs'], 'every byte (except the line break) of lines of up to 2 bytes, of the header too; up to 5 lines over chunks of 1-4 lines; with and without header, final line break and removal of duplicates; result in place or in another folder',
 'The tests sort one fixed small file in one way each and look at its lines only.',
 ['src/util/text_file_sorter.hpp', 'src/lang/statements/create_dataset_statement.hpp'],
 [('FileSorter::sort', 'src/util/text_file_sorter.hpp')],
 bounds='up to 4 (thorough 5) lines, chunk sizes 1-4; 600 lines over ten and more chunks')
prop('P16', 'The cache of recent keys holds the newest keys and no others',
 "After any sequence of insertions the cache contains exactly the most recently inserted distinct keys, up to its capacity; inserting a key again makes it the newest and takes no second place, asking for a key changes nothing, and a cache of capacity 0 holds nothing.",
 ['inputs', 'history'], 'every sequence of 3 operations over 3 keys and of 5 (thorough 6) insertions over 4 keys with capacities 0-3; symbolic keys in any hash bucket; number and string keys',
 'No test touches the cache; the duplicate detection of the binary dataset writer is built on it.',
 ['src/util/lru_cache.h', 'src/util/file_writer.hpp'],
 [('LruCache', 'src/util/lru_cache.h')],
 bounds='up to 6 operations, 4 keys, capacity 3 (and 100 with a fixed history)')
prop('P17', 'Activation functions and their slopes are the ones their names say',
 "Applied to every element: linear is the value itself (slope 1); relu is the value where positive and 0 elsewhere (slope 1 where positive, 0 elsewhere, also at 0); leaky relu keeps a hundredth of negative values (slope 0.01 below 0, 1 from 0 on); sigmoid is 1/(1+exp(-x)) with slope s(1-s), between 0 and 1; its approximation is 0.5(x/(1+|x|)+1) with slope s(1-s); tanh and its approximation 2 sigmoid(2x)-1 stay between -1 and 1 with slope 1-t*t. Softmax gives each element exp(x) divided by the sum of exp over all elements of all rows and channels, adding up to 1 however large or small the inputs are; its slope hands its input on, which cross entropy relies on. Shapes are kept and inputs untouched.",
 ['inputs'], 'every finite float for the element-wise functions (exp and tanh as functions of their argument, and against libm on 32 points); softmax over up to 3 (thorough 4) elements in rows, columns or channels, shifted by up to 1000 either way',
 'The tests check a few of the functions at three or four points and never a slope at 0, an extreme value, or softmax over channels.',
 ['src/ml/activators/', 'src/ml/activation.hpp'],
 [('activation functions', 'src/ml/activators/sigmoid_activation_function.hpp'), ('SoftmaxActivationFunction', 'src/ml/activators/softmax_activation_function.hpp')],
 bounds='2 elements per tensor in 3 layouts, larger shapes with one symbolic element; softmax up to 4 elements (fixed larger ones), within 1e-5')
prop('P18', 'Losses and their derivatives are the ones their names say',
 "For every prediction p and truth t, element by element: mean squared error has error p-t, loss the mean of its squares over all elements, slope 2(p-t); mean absolute error has error |p-t|, loss its mean, slope the sign of p-t (0 at 0); smooth absolute error has error 0.5(p-t)^2/s below the smoothness s and |p-t|-0.5s from there on, loss its mean, slope (p-t)/s or the sign of p-t; categorical cross entropy has error -t log p with p limited from below to 1e-8, loss its sum, slope p-t; binary cross entropy has error -t log p -(1-t) log(1-p) with the same limit, loss its sum, slope (1-t)/(1-p) - t/p where a divisor of 0 counts as 1e-8. Losses cover every row and channel, can be asked for repeatedly, and leave predictions and truths untouched.",
 ['inputs'], 'every finite float for error and slope of all but binary cross entropy; grids of 8 differences, 7 predictions and 3 truths for losses and logarithms; 1-2 (thorough 3) elements in rows, columns or channels',
 'No test computes a loss; training tests only look at whether a network got better.',
 ['src/ml/losses/', 'src/ml/loss.hpp'],
 [('MSE, MAE, smooth MAE', 'src/ml/losses/smae_loss.hpp'), ('cross entropies', 'src/ml/losses/binary_cross_entropy.hpp')],
 bounds='up to 3 elements, fixed larger shapes; losses within 1e-3')
prop('P19', 'Optimizers take the steps they are named for',
 "Gradient descent moves a parameter to w - rate * gradient. Momentum descent keeps, for every registered parameter, m = 0.9 m + rate * gradient (0 at first) and moves to w - m. Adam keeps m = 0.9 m + 0.1 gradient and v = 0.999 v + 0.001 gradient^2 and moves to w - rate * m / (sqrt(v) + 2e-8). Weights use the learning rate, biases the bias learning rate; each registration, and weights apart from biases, has a memory of its own whatever the order of updates; inputs are untouched. Rates stay as given without decay; with decay they change only from the second time step on, at most once per time step, separately for weights and biases, and stay between 1e-5 and 0.1. The factory builds the optimizer asked for with the rates asked for.",
 ['inputs', 'history'], 'every finite parameter, gradient and rate for one step of gradient and momentum descent and two steps of momentum; every history of 3 (thorough 4) interleaved updates over two weights and two biases for all three; 3 (thorough 4) steps with decay',
 'No test computes a step; a wrong memory or rate only shows as slower training.',
 ['src/ml/optimizers/', 'src/ml/optimizer.hpp', 'src/ml/optimizer_factory.hpp'],
 [('MBGDOptimizer, SGDMOptimizer, AdamOptimizer', 'src/ml/optimizers/sgdm_optimizer.hpp'), ('createOptimizer', 'src/ml/optimizer_factory.hpp')],
 bounds='2 elements, up to 4 updates; 12 parameters over 12 steps with fixed gradients; Adam within 1e-4')
prop('P20', 'Layers compute what they are for, pass back the gradient, and learn from it once',
 "Dense: input times weights; passes back error times transposed weights; one step moves the weights against the average over backward passes of (average training input)^T times error, plus regularization strength times the weights when regularized, and stores them at the layer's bits. Bias: starts at 0.1, is added, passes the error on, and moves against the average error at the bias rate. Convolution: valid cross correlation summed over input channels, one output channel per filter; passes back to each input channel its share of the error; each filter moves against input correlated with error (plus regularization), with a momentum of its own. Activation: the function, and error times the average slope of the training inputs. Flatten: one row of all values, and back. Concatenate: inputs side by side, and each input's columns of the error back; inputs of other rows or channels are refused. Dropout: outside training the input itself; in training each value is dropped or scaled by 1/(1-rate), the error goes the same ways, 0 drops nothing, 1 everything, other rates about their share, rates outside 0..1 are refused. Normalization: standardizes its input and passes back the gradient of that. Records outside training leave no trace, each record and error is used once, and extra inputs or missing passes are reported.",
 ['inputs', 'history'], 'every whole-number weight, input and error in the stated ranges (dense -50..50, convolution -20..20, bias and errors -100..100); dense up to 3x2, up to 2 (thorough 3) records and 2 passes per step; convolution kernels 1-2 (thorough 3), 2 channels, 2 filters; every bit pattern through flatten and concatenate',
 'No test looks at a layer; training tests use single-channel inputs and only look at whether the network got better.',
 ['src/ml/layers/', 'src/ml/base_layer.hpp'],
 [('FullyConnectedLayer, BiasLayer', 'src/ml/layers/fully_connected_layer.hpp'), ('Convolution2dValidFunction', 'src/ml/layers/convolution_2d_valid_layer.hpp'), ('Dropout, Normalization, Flatten, Concatenate, Activation layers', 'src/ml/layers/dropout_layer.hpp'), ('StandardizeDerivativeTensorView', 'src/types/tensor_views/standardize_derivative_tensor_view.hpp')],
 bounds='shapes as stated; convolution steps with one record; normalization of 2-3 values on a grid within 1e-3; dense layers of 9x40, 33x3 and 5x17, convolutions of 5 channels and 4 filters with one free value')

prop('P21', 'A network is the composition of its layers, forwards and backwards',
 "Predicting runs every layer of a network exactly once, each on the outputs of the layers connected to it in the order they were connected, and returns the outputs in the order they were added: the composition of the layers, for every acyclic shape of network, in training or not, independent of earlier predictions. As many inputs as the network has heads are required; a prediction that is refused, or fails in a layer, is reported and leaves the next prediction right. In training each record takes one forward and one backward pass through every layer, a layer that feeds several others gets the mean of the errors they pass back, and each layer changes once per batch. With clipping an error longer than the threshold is shortened to it in its direction and a shorter one passes; without it errors pass unchanged. A layer asked for in the builder flattens, multiplies, adds its bias, normalizes and activates in that order, with the bits, regularization, clipping and activation asked for while learning as well, and the number of parameters and trainable layers counts every layer once.",
 ['inputs', 'history'], 'every acyclic graph of 1-4 (thorough 5) layers, connected in either order; every whole input -100..100 and output error -50..50; 1-3 records, batches of 1-3, 1-2 epochs; every built layer with 1-2 rows and channels, 3 activations, bias and normalization on or off, whole weights -9..9',
 'The tests train straight chains of layers only, and look at whether the loss fell.',
 ['src/ml/neural_network.hpp', 'src/ml/neural_network_node.hpp', 'src/ml/happyml_dsl.hpp'],
 [('NeuralNetworkNode::doForward, backward, NeuralNetwork::predict', 'src/ml/neural_network.hpp'), ('NNVertex, NeuralNetworkBuilder', 'src/ml/happyml_dsl.hpp')],
 bounds='up to 4 (thorough 5) layers, 3 records, 2 epochs; clipped errors of several inputs')

prop('P22', 'Training visits every record, keeps the best knowledge, reports what happened',
 "Each epoch trains with every record of the data once, in the order the data hands them out, changes the network after every full batch and after the last, judges and corrects the network by the loss it was built with, tests every test record without learning, and then asks the exit strategy, with the epoch counted from one, the loss of the epoch (the test loss where there is test data) and the time since training began. When the best knowledge is to be kept the network ends with that of the first epoch of lowest loss, otherwise with the last; no checkpoint is left behind and other saved knowledge is untouched. The result reports first, best and final losses, records, batch size and rate. A batch larger than the data, data or test data whose shapes or number of columns differ, and an undefined loss are refused with an error. Testing returns the mean loss and learns nothing; accuracies are the share of the records asked for whose every output is right (every value rounded at 0.5, or the first of the greatest scores). The default exit strategy ends exactly when a limit (epochs, time, patience without improvement, degradation, zero loss) is reached after the fewest epochs, and names a reason exactly then.",
 ['inputs', 'history'], 'every whole loss 0..8 per record and epoch, any whole score 0..9 or probability k/256; 1-3 records, batches of 1-3, 1-3 epochs, 0-2 test records; exit limits: time 0..100, tolerance 0..4, losses 0..15 over 2 (thorough 3) epochs',
 'The tests train with fixed data and look at the final loss only; which knowledge is kept depends on the history of losses.',
 ['src/ml/neural_network.hpp', 'src/ml/exit_strategy.hpp'],
 [('NeuralNetworkForTraining::train, test, compute_*_accuracy', 'src/ml/neural_network.hpp'), ('DefaultExitStrategy', 'src/ml/exit_strategy.hpp')],
 bounds='up to 3 records, 3 epochs; 4-11 records in batches of 1-6 over 4-12 epochs for which losses are remembered; losses within 1e-4')

prop('P23', 'A saved model comes back as the model it was',
 "A network saved with its configuration and knowledge and loaded again predicts what it predicted, has the same layers, connections, options, optimizer, loss and rates (of any size), learns from there as the original would, and, saved again, yields the same knowledge files and the same description. Every bit of its knowledge survives. Knowledge is kept under labels: saving one leaves the others alone, loading brings that one back. Saving over an existing model replaces all of it, or puts the model with its knowledge beside it, as asked, and never touches other models in the folder. Loading refuses a model that is missing, whose knowledge is missing or cut short at any byte, or whose description names an optimizer, loss, layer or activation that does not exist or connects layers that do not, and names are limited to letters, digits and underscores so that no name leads out of the folder.",
 ['inputs', 'history'], 'every layer kind and option in several shapes of network, any whole input; any bit pattern of the weights; 5 rates and strengths from 3e-20 to 12345.678; every history of 3 trainings, savings, loadings and removals over 3 labels; knowledge files cut at every byte; 8 kinds of broken model',
 'The tests save and load one fixed small network and compare one prediction.',
 ['src/ml/neural_network.hpp', 'src/ml/happyml_dsl.hpp', 'src/ml/layers/'],
 [('saveWithOverwrite, saveAsNew, saveKnowledge, loadKnowledge', 'src/ml/neural_network.hpp'), ('loadNeuralNetwork, loadNeuralNetworkForTraining, NNVertex', 'src/ml/happyml_dsl.hpp')],
 bounds='networks of up to 4 layers; the order in which the shapes of concatenated inputs are listed may differ when they were connected in another order than created')

prop('P24', 'Executing a task answers what its model predicts, in its own units and labels',
 "Executing a task on given inputs prints, for each result column in order, the label its model scores highest (the first of the greatest) or the value it predicts, brought back from the scale the task was trained with; executing it on a dataset prints one such answer for each record, whatever scale and order of labels that dataset was written with, and leaves the dataset alone. Inputs may be named in any case and order. What is missing, unknown, not a number or label, or does not fit the task is reported, nothing is changed and the session goes on.",
 ['inputs'], 'any input of the stated ranges for the label printed, in 4 scales and 2 sets of weights; 2-3 labels in 3 orders, 0-2 records, 1-3 results, the 4 scales on either side; 12 ways in which a task and its data do not fit',
 'The tests execute one trained task and print what comes out.',
 ['src/util/task_utils.hpp', 'src/lang/statements/execute_task_statement.hpp', 'src/util/dataset_utils.hpp'],
 [('execute_task_with_inputs, execute_task_with_dataset', 'src/util/task_utils.hpp'), ('ExecuteTaskWithInputsStatement, ExecuteTaskWithDatasetStatement', 'src/lang/statements/execute_task_statement.hpp'), ('BinaryDatasetReader::relabel', 'src/util/dataset_utils.hpp')],
 bounds='up to 3 labels, 2 records, 3 results')

prop('P26', 'Creating a task ends: with a model that was trained, or with a report',
 "Whatever the attempts at training reach and whichever of them fail, the search for the parameters of a task ends. An attempt with all the data that reaches the target ends it at once and is the model kept; otherwise the last training, with all the data, uses the best parameters seen. Attempts that fail are passed over and never chosen; when all fail no task is created. The model is saved once under the name of the task, batches fit the data and no layer is empty. The task knows its columns and labels without its records. A task that exists is left as it is, an incomplete one is made anew, other tasks are untouched, and without data there is no task.",
 ['inputs', 'history'], 'any one attempt of the first 35 (thorough 200) being the best, or any of the first 70 (250) reaching the target; every pattern of failures of four kinds; 2, 20 or 700 records, with and without test data; thorough: the three goals',
 'The tests create one task whose training succeeds; the search depends on what trainings reach, which no test controls.',
 ['src/util/task_utils.hpp', 'src/lang/statements/create_task_statement.hpp'],
 [('create_happyml_task, attempt_training_with_logging', 'src/util/task_utils.hpp')],
 bounds='trainings replaced by stand-ins that reach what the harness says; up to 250 attempts considered')

prop('P27', 'The model made for a task fits its data',
 "For every combination of given and expected columns a task can be created from, every goal and every size the search proposes, the model takes the given values, yields a result of its column's shape for each expected column with every value between 0 and 1 (and adding up to 1 where one label of many is expected), can be trained on every record of the data, and predicts the same after being saved and loaded.",
 ['inputs'], '4 kinds of given columns (numbers, several rows, an image, two columns), 4 of expected columns (labels, one number, two columns), 3 goals, 3 sizes, with and without dropout',
 'The tests create tasks from one or two fixed datasets.',
 ['src/util/task_utils.hpp', 'src/ml/happyml_dsl.hpp'],
 [('build_neural_network_for_label', 'src/util/task_utils.hpp')],
 bounds='one training epoch of 2 records; concrete values')

prop('P25', 'The search for hyperparameters tries what it says and keeps the best',
 "Hyperband tries each configuration that remains once a round, with that round's patience and its share of the data, and only the best go on to the next. The model kept is the one that did best, as it was when it did, and reaching the target ends the search. A configuration that fails, or whose result is undefined, is passed over and never chosen; when none can be trained there is no model and this is reported. Configurations proposed come from the space that was asked for, each at most once, and batches never exceed the data. Whatever columns are given and expected, every network of the space takes the data, can be trained and evaluated. Nothing is left behind in the cache folder and nothing else is removed.",
 ['inputs', 'history'], 'any results 0..9 of 1-4 configurations with any target, every pattern of failures, reduction factors 2-3, data of 0..3000 records; 3 given x 3 expected kinds of columns for real networks',
 'The tests search over one small space with real trainings and look at whether it ends.',
 ['src/ml/hyperband/'],
 [('the search and its space', 'src/ml/hyperband/')],
 bounds='up to 4 configurations; trainings replaced by stand-ins except where networks are built')

prop('P28', 'Generated values keep to their bounds and are the same every time',
 "A tensor of random values shows, wherever and in whatever order it is read, the same value each time, within the bounds asked for, and equal bounds give that value. The initial weights of a layer lie within bounds that shrink as the layer grows, and no two neighbouring weights, nor two layers, start out alike. Two networks described the same start the same, predict the same, and learn the same.",
 ['inputs', 'configurations'], '7 seeds with the extremes, 7 bounds on either side, every order of reading, shapes up to 2x3x5; networks of 1-2 layers, dense and convolution, at 3 precisions, any whole input',
 'The tests print some random tensors.',
 ['src/types/tensor_impls/tensor_from_random.hpp', 'src/types/tensor_impls/tensor_from_xavier.hpp', 'src/ml/happyml_dsl.hpp'],
 [('random tensors', 'src/types/tensor_impls/tensor_from_random.hpp'), ('initial weights', 'src/types/tensor_impls/tensor_from_xavier.hpp')],
 bounds='seven seeds; values may leave the range by the rounding of the library distribution, a millionth of it')

prop('P29', 'A text is embedded token by token with its place',
 "Embedding a text with rotary positions gives one row for each token up to the sequence length, the token's encoding moved by the encoding of its place, which is the same for the same place in every text, lies between -1 and 1 and differs from place to place. Tokens wider than the space for them and places beyond the length are refused.",
 ['inputs', 'configurations'], 'any whole token values, 1-4 tokens, lengths 1-4, several widths of token and place',
 'No test covers the embedding.',
 ['src/ml/rotary_positional_embedding.hpp', 'src/util/text_embedder.hpp'],
 [('rotary embedding', 'src/ml/rotary_positional_embedding.hpp')],
 bounds='up to 4 tokens, texts of up to 1030 places with fixed tokens')

NA = []  # (property, reason)

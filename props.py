"""Single source for properties.jsonl and MANIFEST.json: python3 props.py"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, level_note, observe=(), technique=None, level="proof", claimed=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  level_note=level_note, observe=list(observe), technique=technique, level=level, claimed=claimed))


PR = "dataprofiler/profilers/"
TECH = ("contract-based deductive verification: symbolic execution of the mechanically extracted current source, "
        "contracts/invariants discharged by z3, cvc5 and a polynomial normal form, for all inputs")

prop("P01", "Streamed and merged numeric moments equal those of the whole data",
     "For a numeric column (or the lengths of a text column) of finite values, the reported sum, mean, variance, standard deviation, "
     "skewness and kurtosis equal those of the multiset of all values seen, up to floating point rounding, for either bias-correction "
     "setting. This holds for every way of cutting the rows into batches, every order of updates and every tree of merges, including "
     "empty, one-row and constant batches; statistics that need more values than were seen are NaN (the mean of nothing is 0).",
     ["inputs", "histories"], "all finite value multisets, all partitions into batches, all update/merge trees, both bias settings",
     "Unit tests try a handful of splits with fixed numbers and compare to a tolerance; agreement for every split is an algebraic "
     "identity over all batch sizes and moments that sampling cannot establish.",
     [PR + "numerical_column_stats.py", PR + "profiler_utils.py", PR + "int_column_profile.py", PR + "float_column_profile.py",
      PR + "text_column_profile.py"],
     [("pairwise moment merging", "NumericStatsMixin._merge_biased_variance/_merge_biased_skewness/_merge_biased_kurtosis"),
      ("batch moments", "profiler_utils.biased_skew, biased_kurt; NumericStatsMixin._get_sum/_get_variance/_get_skewness/_get_kurtosis"),
      ("bias correction", "NumericStatsMixin._correct_bias_*")],
     "Induction over histories proved for the real update/__add__ code for all batches (state after one more batch or merge = state of a "
     "single batch over the union), observables proved against textbook central-moment formulas. Floats as reals; pandas/numpy "
     "reductions by assumed contract, exercised by the bounded runtime contracts.",
     ["column statistics sum, mean, variance, stddev, skewness, kurtosis in the report"])

prop("P02", "Extremes and counters are exact whatever the batching or merging",
     "The reported minimum, maximum, number of zeros, number of negatives, number of matching values and number of rows seen of a numeric "
     "column, the extremes of text lengths, and the earliest and latest date of a date column are exactly those of all rows seen. This holds "
     "for every partition into batches and every tree of merges, also when the extreme is zero or a part has no matching value (extremes are "
     "then absent).",
     ["inputs", "histories"], "all finite row sequences, all partitions, all update/merge trees",
     "Tests use a few splits of fixed data; a wrong answer needs a particular order of extremes, zeros and empty parts.",
     [PR + "numerical_column_stats.py", PR + "int_column_profile.py", PR + "float_column_profile.py", PR + "text_column_profile.py",
      PR + "datetime_column_profile.py", PR + "base_column_profilers.py"],
     [("running extremes and counters", "NumericStatsMixin._get_min/_get_max/_get_num_zeros/_get_num_negatives/_add_helper"),
      ("base counters", "BaseColumnPrimitiveTypeProfiler._update_column_base_properties/_add_helper"),
      ("date extremes", "DateTimeColumn._update_datetime/__add__")],
     "Numeric and text columns: induction over update/merge proved for all batches. Date columns: merge and update of extremes under "
     "contract; parsing of dates by bounded runtime contracts.",
     ["min, max, num_zeros, num_negatives, sample_size in the report"])

prop("P03", "Histograms account for every value",
     "The histogram reported for a numeric column (or text lengths) holds every value seen exactly once: bin counts are non-negative whole "
     "numbers whose sum is the number of finite matching values, there is one edge more than bins, edges ascend, and they span the data "
     "(for a merged column that is updated further: lie within the data's range). This holds after any sequence of updates, merges and "
     "reports, for every bin method setting and user-set bin count. Quantiles, median, mode and median absolute deviation lie within the "
     "data's range, quantiles ascend and agree with the true ranks up to one bin width per step.",
     ["inputs", "histories"], "all finite value multisets, all partitions, update/merge/report histories, bin settings",
     "Re-binning loses or duplicates mass only for particular edge alignments, rounding and histories (merge then update, empty side, "
     "report in between).",
     [PR + "numerical_column_stats.py", PR + "histogram_utils.py"],
     [("re-binning", "NumericStatsMixin._assimilate_histogram/_regenerate_histogram/_histogram_to_array"),
      ("batch histogram", "NumericStatsMixin._get_histogram/_merge_histogram/_update_histogram"),
      ("merging", "NumericStatsMixin._add_helper_merge_profile_histograms"),
      ("quantiles", "NumericStatsMixin._get_percentile/_get_quantiles")],
     "Mass, shape and range of the histogram proved by class invariant over update, merge and report for all batches and any number of "
     "bins (re-binning loop by invariant). Quantile/median/mode/MAD clauses: bounded runtime contracts only. Floats as reals.",
     ["histogram, quantiles, median, mode, median_abs_deviation in the report"])

prop("P04", "Sampling takes each row at most once, and all rows when it covers the data",
     "The chunked shuffler yields, for every number of rows and chunk size, each row number exactly once, in chunks of the requested size "
     "(only the last may be shorter). A column's sample consists of distinct rows: exactly min(rows, requested) of them, or, when a minimum of "
     "non-null values is asked for, further whole chunks until it is met or the rows are exhausted; values are kept in row order whatever the "
     "index labels. Every column of a batch is sampled at the same rows, the automatic sample size is the whole of a small data set and never "
     "more than the rows there are, reported example values are sampled non-null rows, and a fixed seed gives the same report again.",
     ["inputs", "random choices"], "all row counts, chunk sizes, random draws, index labels, sample settings",
     "The random draws and index labels under which a row is taken twice or lost are never in a test's fixed data.",
     [PR + "profiler_utils.py", PR + "profile_builder.py", "dataprofiler/rng_utils.py"],
     [("lazy Fisher-Yates", "profiler_utils.shuffle_in_chunks, KeyDict"), ("chunking", "profiler_utils.partition"),
      ("column sampling", "StructuredColProfiler.clean_data_and_get_base_stats"), ("sample size", "_get_sample_size")],
     "shuffle_in_chunks, partition and both _get_sample_size proved for all sizes and all random draws (quantified invariants). Column "
     "sampling through pandas and reproducibility: bounded runtime contracts.",
     ["sample_size, samples, samples_used, row_count in the report"])

prop("P05", "Order classification is exact for a batch and consistent over batches and merges",
     "For a column of one value type (numbers, or texts in text order): a single batch is reported 'constant value', 'ascending', "
     "'descending' or 'random' exactly as its non-null values in row order are constant, never falling, never rising or neither, whatever the "
     "index labels. Over several batches or merges: 'random' stays random; rising and falling parts together are random; a reported direction "
     "implies that every part runs that way or is constant; data that never falls (never rises) in consecutive batches is reported ascending "
     "(descending), or constant value when every batch is constant; a + b and b + a agree, a column that saw nothing adds nothing, and "
     "negating the values swaps ascending and descending.",
     ["inputs", "histories"], "all value sequences of one ordered type, all partitions, all update/merge trees",
     "The wrong verdict needs particular overlaps of ranges of constant, piecewise and overlapping parts.",
     [PR + "order_column_profile.py", PR + "profile_builder.py"],
     [("batch scan", "OrderColumn._get_data_order"), ("merging", "OrderColumn._merge_order/_is_intersecting/_is_enveloping/__add__"),
      ("update", "OrderColumn._update_order/update")],
     "Batch scan by loop invariant over all sequences; merge, update, completeness and reflection proved for all states under the class "
     "invariant. Extraction of non-null rows in row order through pandas: bounded runtime contracts.",
     ["order in the report"])

prop("P06", "Categories and their counts are exact whatever the batching or merging",
     "Without a sketch, the categories of a column are exactly the distinct values seen and each count is the number of rows holding it, for "
     "every partition into batches and tree of merges; the counts sum to the sample size, unique count and ratio, gini impurity and "
     "unalikeability follow from them, the column is categorical exactly when there are at most 10 distinct values or their ratio is at most "
     "0.2, and the report lists the requested number of most frequent values. Once sample size and distinct ratio reach the configured stop "
     "condition the statistics are frozen at that point and no categories are kept. With a count-min sketch no listed count is below the "
     "true one and every value with at least its share of all rows (1 / number of heavy hitters) is listed, also after merges and further "
     "updates; incompatible sketches are refused.",
     ["inputs", "histories"], "all value sequences, partitions, update/merge trees, stop conditions and sketch settings",
     "Tests merge a few fixed dictionaries; losing or doubling a count needs particular overlaps, falsy values, orders and thresholds.",
     [PR + "categorical_column_profile.py", PR + "profiler_utils.py", PR + "base_column_profilers.py"],
     [("dictionary addition", "profiler_utils.add_nested_dictionaries"), ("update and stop condition", "CategoricalColumn.update/_update_categories/_update_stop_condition"),
      ("merging", "CategoricalColumn.__add__"), ("sketch", "CategoricalColumn._get_categories_cms/_merge_categories_cms"),
      ("observables", "gini_impurity, unalikeability, unique_ratio, is_match, profile")],
     "Exact counting, stop condition and observables proved for all dictionaries over unboundedly many values (loop invariants; "
     "add_nested_dictionaries by its own proved contract); count-min sketches: bounded runtime contracts. Ordering of the reported top values and "
     "the pandas value_counts contract: bounded runtime contracts.",
     ["unique_count, unique_ratio, categories, categorical_count, gini_impurity, unalikeability, categorical in the report"])

prop("P07", "Null cells, rows and duplicates are accounted for exactly",
     "For every column, every row seen is either null (its text matches one of the column's null values as a whole, ignoring case) or goes to "
     "the column's statistics: null count, null ratio, null types and the set of null rows per type describe exactly the null rows of all "
     "batches, and no two rows share an identity, whatever batches or merged profiles reuse the same index labels. The number of rows, of rows "
     "with a null in some / in every column, of distinct rows and of duplicate rows are those of all data given, for every history of updates "
     "and merges (counted over the sampled rows when sampling; distinct rows approximately when a sketch is chosen).",
     ["inputs", "histories"], "all frames, null value settings, index labels (whole numbers), partitions, update/merge trees",
     "Double counting or loss needs particular overlaps of index labels, null patterns across columns and batch histories.",
     [PR + "profile_builder.py", PR + "profiler_utils.py"],
     [("null split", "StructuredColProfiler.clean_data_and_get_base_stats"), ("accumulation and label shift", "StructuredColProfiler._update_base_stats/__add__"),
      ("row statistics", "StructuredProfiler._update_row_statistics/_get_row_*_ratio/_get_unique_row_ratio/_get_duplicate_row_count/__add__")],
     "Accumulation, label shift, merge, row-null counting over any number of columns and ratios proved for all states; the pandas string match "
     "that splits a batch and row hashing: bounded runtime contracts.",
     ["null_count, null_types, null_types_index, row_count, row_has_null_ratio, row_is_null_ratio, unique_row_ratio, duplicate_row_count"])

prop("P08", "Differences between profiles obey the laws of difference",
     "For any two profiles (or columns) of the same kind, every number of the diff is the first one's statistic minus the second one's, 'unchanged' exactly when "
     "they are equal (undefined on both sides counts as equal), and both values when one side has none; lists are split exactly into only-first, shared and "
     "only-second (with multiplicities), dictionaries cover the keys of both, later dates show '+'. Comparing anything with itself or equal data reports no "
     "difference (t-statistic, chi2-statistic and PSI 0). The t-test, chi-squared test and PSI are those of the two sides' statistics, counts and histograms on "
     "common bins; PSI is never negative. diff does not raise on any pair and changes neither side.",
     ["inputs"], "all pairs of column or profile states, including empty, constant, all-null and single-row ones",
     "Antisymmetry, self-difference and coverage must hold for all pairs; defects hide in particular pairs (10-bin histograms, all-null columns, equal sets with other multiplicities).",
     [PR + "profiler_utils.py", PR + "numerical_column_stats.py", PR + "profile_builder.py", PR + "categorical_column_profile.py", PR + "column_profile_compilers.py"],
     [("difference helpers", "profiler_utils.find_diff_of_*"), ("tests", "NumericStatsMixin._perform_t_test/_calculate_psi, profiler_utils.perform_chi_squared_test_for_homogeneity"),
      ("diff", "*.diff of columns, compilers, StructuredProfiler, UnstructuredProfiler")],
     "Number, string, list, date and dictionary differences (dictionaries of numbers of any size), t-test, chi-squared sum over any number of categories, PSI sign "
     "and self-PSI, and which statistic every reported difference is of: proved. Nested dictionaries, matrices, exact PSI values and label/entity diffs: bounded runtime contracts.",
     ["Profiler.diff, every column's diff"])

prop("P09", "Merging, reporting and profiling leave their inputs alone",
     "a + b returns a new profile and leaves a and b (columns, compilers and whole profiles) exactly as they were; the result shares no mutable state with either "
     "operand, so updating, reporting or comparing the result never changes an operand, and updating an operand never changes the result. Profiling and updating do not "
     "modify the data passed in; report, diff and save do not modify the options passed in nor the statistics later reported.",
     ["inputs", "histories"], "all operand states, including empty, constant, stopped and already reported ones, all option sets, and all later operations on either side",
     "Aliasing shows only in a later operation on the other object, in particular states (an operand without rows, a sketch, a cached histogram); tests rarely look back at operands.",
     [PR + "profile_builder.py", PR + "column_profile_compilers.py", PR + "numerical_column_stats.py", PR + "categorical_column_profile.py", PR + "order_column_profile.py",
      PR + "datetime_column_profile.py", PR + "helpers/report_helpers.py"],
     [("merge", "__add__ of every column class, BaseCompiler.__add__, StructuredColProfiler.__add__, StructuredProfiler.__add__"), ("report", "_prepare_report")],
     "Frame (nothing reachable from an operand changes) and ownership (no mutable object reachable from both) of + are proved for arbitrary operand states of numeric, date, order and "
     "categorical columns with and without histograms, base column statistics, compilers and profile wiring (two columns). Sketches, text profiles, later updates and the caller's data and options: bounded runtime contracts.",
     ["Profiler.__add__, column __add__, report, diff, update_profile"])

prop("P10", "Saving and loading preserves a profile",
     "Saving a profile (JSON or pickle) and loading it gives back an equivalent profile: the same report under every report option, the same diff (none) against the "
     "original, and the same results of every later update, merge, diff and save as the original would give. Saving leaves the profile as it was and does not raise for "
     "any profile state, column names (texts, numbers, duplicates) or options that the format supports; encoding then decoding any column, compiler or options object "
     "restores its full state, including types that JSON lacks (sets, dates, arrays, integer keys, functions).",
     ["inputs", "histories"], "all profile states and option sets, empty, constant, null-only and stopped columns, all column names",
     "Every attribute must survive a format that has neither sets, dates, integer keys nor functions; a lost attribute shows only in a later update or merge.",
     [PR + "json_encoder.py", PR + "json_decoder.py", PR + "profile_builder.py", PR + "base_column_profilers.py", PR + "column_profile_compilers.py",
      PR + "numerical_column_stats.py", PR + "categorical_column_profile.py", PR + "order_column_profile.py", PR + "datetime_column_profile.py"],
     [("encode", "ProfileEncoder.default"), ("decode", "json_decoder.load_*, *.load_from_dict"), ("pickle", "BaseProfiler._save_helper/load, StructuredProfiler.save")],
     "Encode, JSON contract, decode proved to be the identity on arbitrary states of numeric (with and without histograms), order, categorical and date columns, compilers, column "
     "profiles and profile wiring (two columns). Pickle, labelers, later operations on a loaded profile and report equality: bounded runtime contracts.",
     ["Profiler.save, Profiler.load, json.dumps(..., cls=ProfileEncoder), load_column_profile"])

prop("P11", "Columns are matched by name",
     "When a profile is updated with a batch or merged with another profile, statistics are combined for columns of the same name, wherever the columns stand: updating with the "
     "same columns in another order (or letter case) gives exactly the profile that the aligned batch would give, including row statistics, correlation and null replication "
     "metrics, and likewise for merging. Columns that share a name are matched by position and keep their own statistics. Data or profiles whose columns differ (a missing, additional or renamed "
     "column, another number of duplicates, duplicates elsewhere) are refused with ValueError, and the profile is then unchanged.",
     ["inputs", "histories"], "all arrangements of columns, names (texts, numbers, mixed, duplicated) and contents, over any number of updates and merges",
     "A misalignment shows only for particular arrangements (a permutation that is not its own inverse, duplicates, matrices indexed by column).",
     [PR + "profile_builder.py"],
     [("mapping", "StructuredProfiler._get_and_validate_schema_mapping"), ("update", "StructuredProfiler._update_profile_from_chunk"),
      ("merge", "StructuredProfiler.__add__/_add_error_checks/_merge_correlation/_merge_null_replication_metrics")],
     "The mapping is proved for any number of names and of columns under each name (total, name-preserving, duplicates in place, refusing only schemas that differ); merged columns for all "
     "arrangements of up to three columns; pandas reordering of a batch and matrices: bounded runtime contracts. Known finding: row hashes depend on column order.",
     ["Profiler.update_profile, Profiler.__add__, report"])

prop("P12", "Characters, words and entities of text are counted exactly",
     "For unstructured text, the reported character counts are those of all non-empty lines sampled, and the word counts those of their words (cut at white space, trimmed of punctuation, in lower case unless case sensitive), "
     "except stop words, for every partition into batches and tree of merges; the top lists are the most frequent ones, and lines used, empty lines and memory are those of all data. Merging profiles with different settings is "
     "case sensitive only if both are, leaves out the stop words of both, and does not depend on the order of operands. The vocabulary of a text column is the set of its characters. Entities: every character is counted "
     "once under the label predicted for it and once under the label of the entity it lies in (or UNKNOWN), shares are counts divided by their total, and counts do not depend on batching or merging.",
     ["inputs", "histories"], "all texts, stop word and case settings, label predictions, partitions, update/merge trees",
     "Losing or doubling a count needs particular combinations of case, stop words and operands, or entities at particular places of a line.",
     [PR + "unstructured_text_profile.py", PR + "unstructured_labeler_profile.py", PR + "text_column_profile.py", PR + "profile_builder.py"],
     [("counting", "TextProfiler._update_vocab/_update_words"), ("merging", "TextProfiler.__add__/_merge_words/_merge_vocab"),
      ("entities", "UnstructuredLabelerProfile._update_true_char_label_counts/_update_postprocess_char_label_counts/_update_percentages/__add__"), ("lines", "UnstructuredProfiler._clean_data_and_get_base_stats")],
     "Counting and merging of characters and words for any number of words, any stop words and case settings, entity counting over any texts and entities, shares and merging of entity counts: proved. Cutting and trimming "
     "of words, top lists, word-level labels, whole profiles and text column vocabularies: bounded runtime contracts.",
     ["vocab_count, word_count, words, entity_counts, entity_percentages, samples_used, empty_line_count in the report"])

prop("P13", "Statistics of pairs of columns are those of all rows",
     "For data without nulls cut into parts of at least two rows in which no numeric column is constant, the correlation matrix equals the Pearson "
     "correlations of all rows for every pair of selected numeric columns (NaN for other columns), for every partition into batches, every tree of merges, "
     "every order of columns and either bias correction; for one batch with nulls it is that of the data with nulls at their column's mean. The chi2 matrix "
     "holds for every pair of categorical columns the p-value of the homogeneity test of their category counts over all rows, 1 on the diagonal and NaN elsewhere. "
     "Null replication metrics of every column with nulls are the shares of its null and non-null rows and the sums and means of every other numeric "
     "column over exactly those rows, over all batches and merges, whatever index labels they reuse.",
     ["inputs", "histories"], "all numeric frames, partitions, update/merge trees, column orders, null patterns, index labels",
     "Agreement of merged with whole-data correlations is an algebraic identity over all part sizes, means and deviations; tests compare a few fixed splits.",
     [PR + "profile_builder.py", PR + "profiler_utils.py"],
     [("correlation", "StructuredProfiler._get_correlation/_update_correlation/_merge_correlation/_merge_correlation_helper/_get_correlation_dependent_properties"),
      ("chi2 matrix", "StructuredProfiler._update_chi2"),
      ("null replication", "StructuredProfiler._update_null_replication_metrics/_merge_null_replication_metrics")],
     "The merging formula for any number of columns, rows and values (polynomial normal form with square roots); what is passed to it, the chi2 matrix and merging of null "
     "replication for up to three columns in any order; batch computations through pandas and np.corrcoef: bounded runtime contracts.",
     ["correlation_matrix, chi2_matrix, null_replication_metrics in the report"])

LB = "dataprofiler/labelers/"
prop("P14", "Labels belong to the characters and cells they are reported for",
     "For every list of texts and every model that labels characters, the character processors give each text, in order, one label (and confidence row) per character: exactly those the model gave its own characters, "
     "whatever the lengths of the texts (also empty ones), maximum sample length, separator, batch size and cutting rule; samples never exceed the maximum length, and training labels sit at the characters of their entities. "
     "Entities are exactly the maximal runs of one label other than background and padding. A cell's label is the most frequent one of its characters, padding ignored and background losing ties, its confidences their shares; "
     "regular expression labels cover exactly the matches, resolved by split or priority. A column's votes count, for each sampled cell, its most likely label if likely enough; shares, average confidences and the "
     "reported label follow from votes and confidence sums of all sampled cells, for every partition into batches and tree of merges.",
     ["inputs", "histories"], "all texts and cells, lengths, separators, label predictions and confidences, batches and merges",
     "A label slips to a neighbouring character or cell only for particular lengths relative to the maximum sample length, separators and empty texts, or for entities at the end of a text.",
     [LB + "data_processing.py", LB + "regex_model.py", PR + "data_labeler_column_profile.py"],
     [("samples of texts", "CharPreprocessor._process_batch_helper/_find_nearest_sentence_break_before_ind"), ("back to texts", "CharPostprocessor.match_sentence_lengths, StructCharPostprocessor.match_sentence_lengths"),
      ("entities", "CharPostprocessor.convert_to_NER_format"), ("cells", "StructCharPostprocessor.convert_to_structured_analysis"),
      ("columns", "DataLabelerColumn._update_predictions/update/__add__/data_label/label_representation/avg_predictions")],
     "Sentence breaks, entity spans (any text), labels and shares of a cell (any counts of up to four labels), votes and confidence sums of a batch (any rows, labels, confidences), shares, averages and label of a column "
     "(up to four labels), merging, and matching results back to any texts given the layout the preprocessor guarantees: proved. Cutting texts into samples (that layout), training labels and regular expressions: bounded runtime contracts.",
     ["predictions of DataLabeler.predict, data_label, data_label_representation, avg_predictions in the report"])

DR = "dataprofiler/data_readers/"
prop("P15", "Readers deliver every record of their source, once and unchanged",
     "For a source of known type and settings, given as a file, a buffer or in memory: text comes back in pieces of the length asked for whose concatenation is the text; JSON documents and JSON lines (blank lines aside) give one row per "
     "valid record in order, nested keys joined by the separator, cells the values as text; every leaf of a nested document appears exactly once under its path; delimited files read with a given delimiter and header row, and parquet files of "
     "any row groups, give exactly their cells as text. Sampling n rows gives n distinct rows of the source (all if it has fewer). Batches of a given size visit every record exactly once. Reading again gives the same, and leaves the "
     "caller's buffers open and unchanged and files closed.",
     ["inputs"], "all texts, records, nestings, delimiters, quotings, sizes of pieces, batches and samples, random draws, kinds of source",
     "That no record is lost, doubled or cut depends on index arithmetic and loops over sources of any length and on random draws; tests read a handful of fixture files and mostly compare sizes.",
     [DR + "base_data.py", DR + "csv_data.py", DR + "json_data.py", DR + "text_data.py", DR + "parquet_data.py", DR + "data_utils.py", DR + "filepath_or_buffer.py", DR + "structured_mixins.py"],
     [("pieces and batches", "TextData._get_data_as_text, BaseData.get_batch_generator"), ("records", "data_utils.read_json/read_json_df/json_to_dataframe/read_csv_df/read_parquet_df, JSONData._find_data/_coalesce_dicts"),
      ("sampling", "data_utils.reservoir/rsample/sample_parquet"), ("sources", "FileOrBufferHandler.__enter__/__exit__")],
     "Proved for sources of any length: pieces of a text, batches of lists and frames, JSON lines (json.loads by contract), reservoir sampling for every sequence of random draws, opening and closing of files and buffers (also "
     "when reading raises). Parsing through pandas, pyarrow and csv, nested documents: bounded runtime contracts. Guessing of type, encoding, delimiter and header is heuristic and outside the statement.",
     ["Data(...).data, len, get_batch_generator"])

prop("P16", "Profiling in several processes equals profiling in one",
     "With multiprocessing enabled, whatever the number of processes and the schedule of the pool, the profile equals that of sequential profiling.",
     ["schedules"], "all schedules of the process pool",
     "The order in which worker processes finish is not controlled by a test.",
     [PR + "profile_builder.py", PR + "profiler_utils.py"],
     [("pool", "profiler_utils.generate_pool, StructuredProfiler._update_profile_from_chunk")],
     "", ["report()"],
     claimed="Worker processes exchange pickled columns through multiprocessing.Pool: schedules and pickling across processes are outside function contracts of a sequential deductive verifier, and no concurrent one for Python is installed. "
             "(What is pickled is covered sequentially by P10.)")

prop("P17", "Type, encoding, delimiter and header of a file are recognised",
     "Data(path) picks the reader, encoding, delimiter, quote character and header row with which the file was written.",
     ["inputs"], "all files",
     "Recognition must work for files unlike the fixtures.",
     [DR + "csv_data.py", DR + "data.py", DR + "data_utils.py", DR + "json_data.py"],
     [("guessing", "CSVData._guess_delimiter_and_quotechar/_guess_header_row/is_match, JSONData.is_match, data_utils.detect_file_encoding")],
     "", ["Data(path).data_type, delimiter, header, file_encoding"],
     claimed="Recognition is heuristic (frequencies, thresholds, chardet): there is no postcondition that holds for every file, so no contract can decide it; files read with known settings are P15.")

prop("P18", "The character model labels sensitive entities correctly",
     "Predictions of the pre-trained labeler are the entity types present in the data.",
     ["inputs"], "all data",
     "Accuracy on unseen data.",
     [LB + "character_level_cnn_model.py", LB + "char_load_tf_model.py"],
     [("model", "CharacterLevelCnnModel.predict")],
     "", ["predictions"],
     claimed="Statistical quality of trained network weights has no specification to prove; what is done with any model's predictions is P14.")

prop("P19", "Graph profiles describe the graph",
     "Node, edge and component counts, average degree, and per-attribute distributions of GraphProfiler are those of the graph given.",
     ["inputs"], "all graphs",
     "Tests use two fixture graphs.",
     [PR + "graph_profiler.py", DR + "graph_data.py"],
     [("graph", "GraphProfiler.update_profile")],
     "", ["GraphProfiler.profile"],
     claimed="GraphProfiler is a thin layer over networkx counts and scipy.stats fits of continuous distributions: a contract would restate the assumed contracts of those libraries, leaving nothing of the repository's own code to discharge.")

# ---- more properties are appended below


def write():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "sh ./setup.sh",
           "checks": [{"property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick",
                       "thorough_cmd": f"./run.sh {p['id']} thorough",
                       "technique": p["technique"] or TECH, "level": p["level"], "level_note": p["level_note"]}
                      for p in P if p["claimed"] is True],
           "not_applicable": [{"property": p["id"], "reason": p["claimed"]} for p in P if p["claimed"] is not True],
           "notes": "see DESIGN.md; no hooks in /repo"}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    write()

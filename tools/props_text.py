NOTES = ("Every check is property-based testing with generated inputs against an explicit oracle, run by one harness (build/pbt) compiled "
         "with address and undefined-behaviour sanitizers from /repo's current tree. Failures shrink to a choice tape in replays/, which "
         "'python3 check.py --replay FILE' runs again. No hooks in /repo. Python bindings are not covered: SWIG is not installed.")
TESTS = "The tests read a handful of fixed files in testdata/ and check a few values."

P("P01", "Writing a dataset and reading it back loses nothing",
  "For every well-formed dataset in memory, writing it to a new file succeeds, leaves the dataset in memory unchanged, and reading that file gives a dataset with the same tables in the same order, the same records, optional columns, flags, strings and bit-identical numbers. The only differences are that revisions become those of OIFITS version 2, observation TIMEs become zero and the file's creation DATE is set. A further write and read of what was read changes nothing at all.",
  ["inputs", "configurations"], "all datasets: any number of tables of each of the ten types, any combination of optional columns and keywords, any channel and record counts, any values including NaN, infinities and extremes",
  TESTS + " Round trips of combinations of optional columns, correlations, complex data, unusual sizes and values are never made.",
  [L+"write_fits.c", L+"read_fits.c", L+"oifile.c", L+"alloc_fits.c", L+"exchange.h"],
  [("table writers and readers must agree column by column", L+"write_fits.c write_oi_*(), "+L+"read_fits.c read_next_oi_*()"), ("whole-file driver", L+"oifile.c write_oi_fits(), read_oi_fits()")],
  "property-based round trip over generated datasets (ASan/UBSan)", "30000 (quick) / 400000 (thorough) generated datasets compared field by field; not exhaustive")

P("P02", "Written files are valid FITS and conforming OIFITS 2",
  "Every file the library writes is a structurally valid FITS file with correct checksums in every HDU, in which a reader knowing only the FITS and OIFITS version 2 standards finds the mandatory primary keywords, and every table with the mandatory keywords, revision numbers, column names, formats, sizes and units, and extension version numbers counting up from 1 within each type. Optional columns and keywords are there exactly when the dataset has them. What that reader decodes is the content of the dataset that was written.",
  ["inputs", "configurations"], "all well-formed datasets, of either version, with any combination of optional content",
  "The tests only read back with this library's own reader, so an error common to reader and writer, a wrong unit or format cannot be seen.",
  [L+"write_fits.c", L+"oifile.c"],
  [("column definitions, TUNIT and keyword tables", L+"write_fits.c"), ("order, EXTVER and checksum", L+"oifile.c write_oi_fits(), "+L+"write_fits.c")],
  "property-based differential test against an independent FITS/OIFITS2 decoder", "15000 / 200000 generated datasets; the decoder shares no code with the library or CFITSIO")

P("P03", "Any conforming file layout is read faithfully",
  "Reading a conforming OIFITS file of version 1 or 2 gives exactly the values in the file, whatever the order of tables, columns and keywords, the numeric storage types chosen, the width of string columns, the case of column names, and whatever unrelated columns, keywords and HDUs it has besides. Optional keywords and columns which are absent are reported as absent. Fields which a table's revision does not define take their documented default and are not taken from unrelated columns of the same name.",
  ["inputs", "configurations"], "all conforming v1, v2 and mixed-revision files, over layouts this library itself never writes",
  TESTS + " All of them share a few layouts.",
  [L+"read_fits.c", L+"oifile.c"],
  [("columns found by name, nwave from column repeat counts", L+"read_fits.c read_next_oi_*()"), ("defaults per revision", L+"read_fits.c"), ("table dispatch by EXTNAME", L+"oifile.c read_oi_fits()")],
  "property-based test: independent FITS encoder with random layouts vs the dataset model", "15000 / 200000 generated files; string columns no wider than the standard allows")

P("P04", "Version 1 files are recognised and can be used as version 2",
  "A file is taken as OIFITS version 2 exactly if its primary header says so, and as version 1 exactly if it does not and every table has the version 1 revision. When a file is not version 2 its primary header values are derived from its tables: the single array, instrument and target name or MULTIPLE (UNKNOWN without any array), the calendar date of its earliest observation, and UNKNOWN where tables cannot tell. Upgrading its tables sets the version 2 revision and zeroes TIME, changes no other value, and does nothing to tables already of version 2.",
  ["inputs"], "all v1, v2 and mixed-revision files with any subset of primary header keywords",
  "Tests read two v1 files and never check the derived header or upgraded tables value by value.",
  [L+"oifile.c", L+"read_fits.c"],
  [("header synthesis", L+"oifile.c set_oi_header()"), ("classification", L+"oifile.c is_oi_fits_one(), is_oi_fits_two()"), ("upgrade", L+"oifile.c upgrade_oi_*()")],
  "property-based test against a header/upgrade model", "15000 / 150000 generated files")

P("P05", "Reading a damaged file never crashes and never yields a broken dataset",
  "Reading any file at all - damaged, truncated, not FITS, or with tables whose columns and keywords are missing, mistyped or of odd sizes - either succeeds or returns a non-zero status, and never accesses memory it does not own, aborts or hangs. A dataset which was read is consistent in itself: its counts match its lists, its strings end, its arrays have the declared sizes. It can then be summarised, counted, checked, searched, written and freed, again without a crash.",
  ["inputs", "fault_sequences"], "all damaged variants of conforming files (structure, headers, bytes, truncation) and arbitrary non-FITS files",
  "The tests read only intact files, and one file with a missing keyword.",
  [L+"read_fits.c", L+"oifile.c", L+"free_fits.c", L+"oicheck.c"],
  [("status checks and string width limits", L+"read_fits.c read_*()"), ("skipping and freeing of tables which fail", L+"oifile.c read_oi_fits()")],
  "structure-aware fuzzing of files under ASan/UBSan, dataset invariants as oracle", "100000 / 2000000 damaged files; faults inside CFITSIO itself are discarded, sizes declared in headers stay small")

P("P06", "One bad table does not spoil the rest of the file",
  "If a correlation, polarisation or data table cannot be read, because it lacks a mandatory keyword or column or has a string column that is too wide or none, then it is left out with a message that says which, and everything else in the file is read exactly as without it. If a target, array or wavelength table is bad in that way, reading the file fails with a non-zero status.",
  ["inputs", "fault_sequences"], "all conforming files x all choices of one to three tables and of what is wrong with them",
  "No test has a bad table among good ones.",
  [L+"oifile.c", L+"read_fits.c"],
  [("bad tables skipped", L+"oifile.c read_oi_fits()"), ("mandatory columns", L+"read_fits.c read_next_oi_*()")],
  "property-based fault injection into encoded files vs the dataset model", "50000 / 1000000 generated files; columns are missed only in tables with rows")

P("P07", "A filter keeps exactly the data that match every criterion",
  "For every dataset and filter specification, the output holds precisely the tables, records and spectral channels accepted by every criterion - array, instrument and correlation name patterns, target, observation time, wavelength, baseline length, projected uv radius, signal-to-noise, data type - in their original order, with all their values, keywords and optional columns unchanged. A single datum which fails a per-channel criterion is kept but flagged; data accepted keep their own flag, and records left with every channel flagged are dropped if so requested. Limits are inclusive, a signal-to-noise that is not a number rejects nothing, and filtering by one target renumbers it 1.",
  ["inputs", "configurations"], "all datasets x all filter specifications, including values exactly on a limit",
  "Tests apply single criteria to two files and check ranges of the output, never that nothing else was lost or altered.",
  [L+"oifilter.c"],
  [("criteria applied per table, record and channel", L+"oifilter.c filter_oi_*(), filter_all_oi_*(), accept_*()"), ("wavelength masks", L+"oifilter.c filter_all_oi_wavelength()")],
  "property-based model comparison", "90000 / 1200000 dataset-filter pairs against a reference filter")

P("P08", "Filter output is self-contained and the input is left alone",
  "After filtering, every array, instrument, correlation table and target named by the output's data exists in the output, channel counts agree with the instrument's, and no array, instrument or correlation table is left that no data refer to, nor any data table without records or channels. Those tables and the primary header are as in the input. The input and the filter specification are unchanged, and the output shares no memory with the input: it stays valid when the input is freed, and can be written and read back.",
  ["inputs", "histories"], "all datasets x all filter specifications; freeing the input before using the output",
  "Tests never examine references of the output nor free the input first.",
  [L+"oifilter.c", L+"oifile.c"],
  [("pruning of unreferenced tables", L+"oifilter.c prune_oi_*()"), ("deep copies", L+"oifile.c dup_oi_*()")],
  "property-based invariant checking under ASan", "60000 / 600000 dataset-filter pairs")

P("P09", "Filters are idempotent, compose and partition data",
  "The default filter leaves every dataset within its ranges intact except for tables no data refer to. Filtering twice with the same criteria gives the same as once; applying two filters in turn gives the same in either order and the same as one filter with both sets of criteria. Filtering by each target in turn partitions the records and unflagged data, and the unflagged data of a filtered dataset are as many as the iterators yield from the unfiltered one with that filter.",
  ["inputs", "configurations"], "all datasets x pairs of filters",
  "Relations between several filterings are never tested.",
  [L+"oifilter.c", L+"oiiter.c"],
  [("same criteria in filter and iterators", L+"oifilter.c, "+L+"oiiter.c")],
  "property-based metamorphic relations", "60000 / 600000 cases; polarisation tables of instruments which were filtered out are left out of idempotence")

P("P10", "Iterators visit each accepted datum once, in order",
  "Iterating over complex visibilities, squared visibilities or bispectra of a dataset with a filter visits every datum which is accepted by the filter's criteria (name patterns, target, time, wavelength, baseline, uv radius, signal-to-noise, data type, and flagged data left out if so requested) exactly once and no other, in order of table, record and channel, and then ends and stays ended. Each step reports the right table number, table, record and channel, and the uv coordinates are the record's baseline divided by the channel's wavelength. Tables without records are passed over, iterators do not disturb one another or the dataset, and without a filter all data are visited.",
  ["inputs", "histories"], "all datasets x filters x interleavings of several iterators",
  "Tests iterate over two files and compare counts only.",
  [L+"oiiter.c", L+"oifilter.c"],
  [("state machine over table/record/channel", L+"oiiter.c oi_vis_iter_next(), oi_vis2_iter_next(), oi_t3_iter_next()")],
  "property-based model comparison, step by step", "90000 / 900000 datasets, several million iterator steps")

P("P11", "Merging preserves every datum and what it refers to",
  "Merging any number of datasets gives a dataset with every data table and every polarisation table of every input, in order of the inputs and of tables within them, with all records, values, flags, keywords and optional columns unchanged (version 1 tables become version 2 with zero TIME). Through the output's names and numbers each record still refers to the target of the same name, an instrument with the same wavelengths, an array with the same stations, and the same correlation matrix as before. The inputs are unchanged and the output stays valid when they are freed.",
  ["inputs", "configurations"], "all lists of datasets with arbitrary overlaps and clashes of targets, arrays, instruments and names",
  "Tests merge two or three fixed files and compare numbers of tables.",
  [L+"oimerge.c", L+"oifile.c"],
  [("copying and renaming of data tables", L+"oimerge.c merge_all_oi_*()"), ("maps from input to output names and target ids", L+"oimerge.c")],
  "property-based preservation check through output references", "40000 / 500000 lists of 2-5 datasets")

P("P12", "Merging reconciles targets, arrays, instruments and names",
  "In a merged dataset each distinct target name appears once, with the values of its first appearance, numbered from 1 in order of appearance. Arrays with matching coordinates and stations, and instruments with the same wavelengths and bandwidths, are shared rather than repeated; every other array and instrument, and every correlation table, is kept with all its values. Each keeps its name unless that is taken, in which case it gets another unique one of legal length, and every table the data name exists.",
  ["inputs", "configurations"], "all lists of datasets with arbitrary overlaps and clashes",
  "Tests merge two or three fixed files; clashing names, near matches and long names never occur.",
  [L+"oimerge.c"],
  [("matching", L+"oimerge.c match_oi_target(), match_oi_array(), match_oi_wavelength()"), ("unique names", L+"oimerge.c")],
  "property-based model comparison", "40000 / 500000 lists of 2-5 datasets; differences clearly within or beyond the matching tolerance")

P("P13", "The merged primary header combines the inputs' headers",
  "Each keyword of a merged dataset's primary header has the common value if all inputs which give it agree, MULTIPLE if they differ, and if none gives it UNKNOWN when it is mandatory or nothing when it is optional. The observation date is the earliest of the inputs' usable dates, and the content is OIFITS version 2.",
  ["inputs", "configurations"], "all lists of headers with values equal, different or absent in any pattern",
  "A test merges headers of files which agree.",
  [L+"oimerge.c"], [("header merging", L+"oimerge.c merge_oi_header()")],
  "property-based model comparison", "120000 / 1500000 lists of 2-5 headers")

P("P14", "Conformity checks find every breach and nothing else",
  "Each conformity check reports a breach exactly if the dataset has one: missing tables or names, wrong revisions or dates, inconsistent target, array or correlation references, negative errors, amplitudes beyond one, wrong order or keywords that do not fit together. It reports the right severity, the number of breaches and, for the first few, where they are; a conforming dataset passes all checks. Checking changes nothing in the dataset.",
  ["inputs"], "all datasets, conforming or with any combination of breaches anywhere",
  "Tests check two conforming files and one with a single fault.",
  [L+"oicheck.c", L+"oicheck.h"],
  [("fourteen checks", L+"oicheck.c check_*()"), ("accumulation of breaches", L+"oicheck.c set_result()")],
  "property-based differential test against a model of the checks", "60000 / 800000 datasets x 14 checks")

P("P15", "Check reports are complete and never overflow",
  "The report of a check with breaches gives the severity, what was checked and each place in order, up to a fixed number of places after which it says that the list is truncated, whatever the number of breaches and the length of names; a check without breaches reports nothing. The text is the same printed or returned, does not depend on which other checks were run, and remains valid when the dataset is freed.",
  ["inputs", "histories"], "all check results, with any number of breaches and names of any length, in any order of use",
  "Tests never produce enough breaches to fill a report.",
  [L+"oicheck.c"],
  [("report formatting", L+"oicheck.c format_check_result(), print_check_result()"), ("fixed-size location list", L+"oicheck.h")],
  "property-based model comparison under ASan", "40000 / 500000 datasets with 0-100 breaches")

P("P16", "Lookups find exactly the table or record asked for",
  "In every dataset that was read, filtered or merged, looking up an array, instrument, correlation table, target (by id or name) or station (by array name and station index) returns the first with exactly that name or number if there is one, whether or not data refer to it, and nothing otherwise.",
  ["inputs", "histories"], "all datasets reached by reading, filtering or merging, all names and numbers including near misses",
  "Tests look up a few names that exist.",
  [L+"oifile.c", L+"oifilter.c", L+"oimerge.c"],
  [("hash tables filled on read, filter, merge", L+"oifile.c, "+L+"oifilter.c, "+L+"oimerge.c"), ("lookup functions", L+"oifile.c oi_fits_lookup_*()")],
  "property-based model comparison (linear search)", "20000 / 200000 datasets, about a million lookups")

P("P17", "Copies of tables are complete and independent",
  "Copying a table of any of the ten types with any optional content gives a table equal in every field, every record, every channel and every optional column. Changing or freeing either the original or the copy has no effect on the other.",
  ["inputs", "histories"], "all tables of all types, all combinations of optional columns, tables without records",
  "No test copies tables with optional columns or modifies one of the pair.",
  [L+"oifile.c"], [("deep copies", L+"oifile.c dup_oi_*()")],
  "property-based comparison, overwrite and free under ASan", "50000 / 600000 datasets' worth of tables")

P("P18", "Calendar dates and modified Julian dates convert exactly",
  "Every calendar date from 1901 to 2099 converts to its modified Julian date, and every modified Julian date from 1858 to 2132 converts to its calendar date, so that the conversions are inverse to one another.",
  ["inputs"], "all days of 1858-2132", "A test samples a few dates.",
  [L+"datemjd.c"], [("integer calendar arithmetic", L+"datemjd.c date2mjd(), mjd2date()")],
  "exhaustive generation against a day-by-day calendar", "exhaustive over the stated range of days")

P("P19", "Dataset queries and the summary tell the truth",
  "Atomicity is reported exactly if there are at most one array, exactly one instrument and exactly one target, and all observations of all data types lie within the given time span. The numbers of unflagged complex visibilities, squared visibilities and bispectra are counted exactly. The text summary gives the version, primary header, and for every table its number, names and sizes, instruments' channel counts and wavelength ranges; no query changes the dataset.",
  ["inputs"], "all datasets", "Tests print summaries without checking them and count two files.",
  [L+"oifile.c"], [("queries", L+"oifile.c is_atomic(), count_oi_fits_data(), format_oi_fits_summary()")],
  "property-based model comparison", "100000 / 1000000 datasets; text compared modulo blanks")


P("P20", "Any sequence of operations is memory-safe and leaves other datasets alone",
  "Any sequence of building, reading, writing, filtering, merging, checking, iterating, querying, upgrading, copying and freeing, on any number of datasets, leaves every dataset which is not itself modified exactly as it was, never touches memory after it was released and never releases it twice. A freed dataset's variable can be used again, and once all datasets are freed everything is released: repeating a sequence of successful operations takes no more memory, also if reading had to leave out bad tables. Writing over an existing file fails and leaves the file as it was.",
  ["histories", "inputs"], "all sequences of operations on any number of datasets of any content",
  "Tests do one operation after another on one dataset; aliasing between datasets and leaks go unnoticed.",
  [L+"oifile.c", L+"oifilter.c", L+"oimerge.c", L+"oiiter.c", L+"oicheck.c", L+"free_fits.c", L+"alloc_fits.c"],
  [("release of tables and hash tables", L+"oifile.c free_oi_fits(), "+L+"free_fits.c"), ("deep copies on filtering and merging", L+"oifilter.c, "+L+"oimerge.c")],
  "stateful model-based testing with an exact allocation count under ASan", "12000 / 120000 histories of 2-20 operations; leaks of failed reads are not claimed",
  state=[("live datasets", "what each dataset should hold after every step", L+"oifile.h oi_fits")])

P("P21", "The command-line utilities do what the library does, and report failure",
  "The utilities for filtering, merging, upgrading and checking files produce exactly the output, or report exactly the breaches, that the corresponding library operations define for the same input. They exit with 0 on success, 2 on wrong usage and 1 on any other failure. They never change their input files, never replace an existing output file unless told to, and leave no new or changed output when they refuse.",
  ["inputs", "configurations", "fault_sequences"], "all input files, options, existing output files and kinds of bad input",
  "Tests of the utilities run a few commands on fixed files and look only at the exit code.",
  ["src/util/oifits-filter.c", "src/util/oifits-merge.c", "src/util/oifits-upgrade.c", "src/util/oifits-check.c"],
  [("utilities", "src/util/*.c main()")],
  "property-based testing of the programs against models and the library", "6000 / 60000 runs; sanitized builds of the programs")

P("P22", "A write which cannot be completed is reported and changes nothing else",
  "Writing a dataset reports a failure when the file exists, cannot be created, an identifier or station index does not fit its column of 16 bits, or the medium is full before the file's last block is reached, and reports success when there is room. A failure never changes the dataset or a file that existed, a call with an error status already set does nothing, and later writes succeed as if nothing had happened.",
  ["fault_sequences", "inputs"], "all datasets, including those with numbers on both sides of what fits, with the file size limited at every point before the last block, and all reasons for which a file cannot be created",
  "No test writes to a full medium or where it cannot.",
  [L+"oifile.c", L+"write_fits.c"],
  [("status is checked after each table", L+"oifile.c write_oi_fits()"), ("table writers", L+"write_fits.c")],
  "property-based fault injection (resource limits)", "3000 / 40000 datasets x about 35 faults; loss of the very last buffer (4096 bytes) is not reported by CFITSIO and not claimed",
  level="fault_enumeration")

P("P23", "Reading and writing table by table works in any order",
  "Tables of a file can be read one by one in any order: the next of a type follows the current position in file order, until end of file is reported; an array, instrument or correlation table is found by its exact name, and the targets and header from any position. Tables and the header, also after tables, can be written one by one in any order with any version number, and read back with the values written.",
  ["histories", "inputs"], "all files, all sequences of reading and positioning, all orders of writing",
  "Tests read each type of table once, from the beginning of the file.",
  [L+"read_fits.c", L+"write_fits.c"],
  [("search for named and next HDUs", L+"read_fits.c next_named_hdu(), specific_named_hdu()"), ("table writers", L+"write_fits.c write_oi_*()")],
  "stateful model-based testing", "20000 / 200000 files with sequences of up to 25 operations",
  state=[("current HDU", "where the next search starts", "CFITSIO file pointer")])

P("P24", "Filter options on a command line set exactly what they say",
  "Each command-line option of the filter sets exactly its criterion, in the documented units, in either spelling and any order; all other criteria keep their defaults, also when options are parsed repeatedly in one program. The text description names every criterion which is in force with its value, and applying the options to a dataset gives the same as filtering with those criteria.",
  ["inputs", "configurations", "histories"], "all combinations, orders and values of options",
  "Tests pass a single option at a time.",
  [L+"oifilter.c", L+"oifilter.h"],
  [("option parsing", L+"oifilter.c get_oi_filter_option_group(), parse callback"), ("description", L+"oifilter.c format_oi_filter()")],
  "property-based testing against a model of the options", "60000 / 800000 command lines")

P("P25", "Checksum mismatches are reported and nothing else depends on them",
  "A file in which the stored data or header checksums do not fit is still read with the same result as if they did. For each such table or header the reader prints one warning with its place, name and which of the checksums failed, and it prints none for a correct file or one without checksums.",
  ["inputs"], "all files with checksums, and all changes to data or header cards of any HDUs",
  "Tests read only files with correct checksums.",
  [L+"read_fits.c", L+"oifile.c"],
  [("checksum verification", L+"oifile.c read_oi_fits(), "+L+"read_fits.c verify_chksum()")],
  "property-based fault injection", "15000 / 150000 files")

P("P26", "Datasets whose tables do not fit together are processed safely",
  "A dataset whose tables name an instrument, array, correlation table or target which does not exist, have other channels than their instrument, or repeat a name or number can be filtered, iterated, merged, checked, summarised, written and read without a crash or invalid memory access, and without changing it. Filtering and iterating leave out tables whose instrument does not exist and channels it does not have, the first of tables or targets with one name or number is meant, and all else is treated as usual. Merging keeps all data, and names and numbers of things which do not exist become empty and zero.",
  ["inputs"], "all datasets with any combination of such misfits, in memory or from a file, and all filters",
  "Tests use consistent datasets; the combinations of misfits are unlimited.",
  [L+"oifilter.c", L+"oiiter.c", L+"oimerge.c", L+"oifile.c", L+"oicheck.c"],
  [("channel masks by instrument name", L+"oifilter.c filter_all_oi_wavelength()"), ("channel acceptance", L+"oiiter.c oi_*_iter_accept_channel()"),
   ("reference replacement", L+"oimerge.c lookup_new_name(), lookup_new_target_id()")],
  "property-based testing against reference models, under sanitizers", "60000 / 600000 datasets")

P("P27", "A file cut short is not mistaken for a whole one",
  "If a file is cut short at any byte, reading it never crashes, and gives either a non-zero status or exactly those tables which are whole, with all their values; no table is returned in part. A cut correlation, polarisation or data table is left out with a message naming its type, even if error messages are turned off, and a cut target, array or wavelength table makes reading fail. Reading table by table never takes a cut table for the end of the file.",
  ["crash_points", "inputs"], "all files, cut at every byte",
  "A transfer or a program may stop at any byte; no test reads a file cut short.",
  [L+"read_fits.c", L+"oifile.c"],
  [("end of file and read errors", L+"oifile.c read_oi_fits(), "+L+"read_fits.c read_next_oi_*(), next_named_hdu()")],
  "property-based fault injection against the model of the whole tables", "6000 / 100000 files with up to 30 cuts each; a file cut exactly between two HDUs is valid and read as such")

P("P28", "No file stays open, and reading gives what the file holds now",
  "However reading or writing ends - with success, with tables left out, or with failure on a damaged, cut, missing or existing file or a full medium - every file it opened is closed again. Reading gives what the file of that name holds at that time, whatever was read, written or has failed under that name before, and changes no file.",
  ["histories", "fault_sequences"], "all sequences of reading, writing, replacing, cutting and removing files",
  "Tests end before open files or stale content could matter, and do not go on after failures.",
  [L+"oifile.c", L+"read_fits.c", L+"write_fits.c"],
  [("closing on all paths", L+"oifile.c read_oi_fits(), write_oi_fits() except:")],
  "stateful property-based testing with fault injection", "10000 / 200000 histories of 2-12 operations",
  state=[("open files", "file descriptors of the process", "/proc/self/fd"), ("content of each file name", "what the last successful change put there", "scratch directory")])

P("P29", "Problems are reported when there are some and only then",
  "Reading or writing which fails prints the operation and the text of its status on the error stream, or nothing if error messages are turned off; the end of the file is no error. When reading and writing succeed there are only warnings: of each table of a revision newer than known (reading) or other than the current one (writing), complex visibilities, squared visibilities and bispectra written without array name, data naming tables which are missing, tables without a name, version 2 target names not 32 characters wide, and tables left out. No message is left over for a later report.",
  ["inputs", "configurations", "fault_sequences"], "all files and datasets, good and bad, with error messages turned on and off",
  "Tests do not look at messages at all.",
  [L+"read_fits.c", L+"write_fits.c", L+"oifile.c"],
  [("error reports", L+"read_fits.c, "+L+"write_fits.c, "+L+"oifile.c except: fits_report_error()"), ("warnings", L+"read_fits.c, "+L+"write_fits.c printf(), "+L+"oifile.c find_oi_*() g_warning()")],
  "property-based testing of the output against a model of the messages", "20000 / 400000 files and datasets")

P("P30", "Filter and merge say what they leave out, all else is silent",
  "Filtering prints one warning for each table of data or polarisation selected by its names of which no record is accepted, each polarisation record left out because it has another number of accepted channels (with its number and instrument), each instrument left without channels, each repeated instrument name, and each array, instrument, correlation or polarisation table left out because the data kept do not refer to it, naming what is left out. Merging prints one warning for each reference to a missing table or target which it removes, with the name or number. They print nothing else; looking up, iterating, checking, counting, formatting summaries and reports, and deriving the header print nothing at all.",
  ["inputs", "configurations"], "all datasets, fitting or not, and all filters",
  "Tests do not look at warnings; which are due depends on every table and criterion.",
  [L+"oifilter.c", L+"oimerge.c", L+"oiiter.c", L+"oicheck.c", L+"oifile.c"],
  [("filter warnings", L+"oifilter.c filter_all_oi_*(), prune_oi_*() g_warning()"), ("merge warnings", L+"oimerge.c lookup_new_name(), lookup_new_target_id()")],
  "property-based testing of the output against a model of the warnings", "30000 / 400000 datasets with 1-4 operations each")


P("P31", "Separate datasets can be used from separate threads at once",
  "Threads which work at the same time on datasets and files of their own - building, reading, writing, filtering, merging, checking, iterating, looking up, counting, copying, upgrading, deriving headers and freeing - each get exactly the results they would get alone. Several threads may also filter, merge, check, iterate over, look up in, count, copy and write one common dataset at once, as long as none changes it. Apart from the text summaries, reports and descriptions, which share one buffer, and the parsing of options, no two threads ever access the same memory in conflict.",
  ["schedules", "programs", "inputs"], "all programs of several threads on datasets of their own and one they only look into",
  "All tests are single-threaded; a buffer or counter that became static would pass them.",
  [L+"oifile.c", L+"oifilter.c", L+"oicheck.c", L+"oimerge.c", L+"oiiter.c", L+"read_fits.c", L+"write_fits.c"],
  [("the only shared state is the text buffer and the parsed options", L+"oifile.c pGStr, "+L+"oifilter.c parsedFilter"), ("iterators keep their own state", L+"oiiter.h")],
  "property-based testing of random thread programs with a race detector", "12000 / 120000 programs of 2-4 threads, each run twice at once and once in turn under ThreadSanitizer; CFITSIO and GLib only through wrappers that tell the detector what they access")

P("P32", "The demonstration program writes what its text says and lists it",
  "Given a text of the form of the supplied examples, which describes one table of each type, the demonstration program writes a file that holds exactly the values described, with every optional item left out of the text absent or at its default. It then lists the data and polarisation tables of the OIFITS file it is asked to read, of either version and in any order: type by type, each type in file order, with the names each table refers to. If a file cannot be opened, created, read or written to the end, or to be listed lacks its targets or a table which others name, it ends with a failure status and leaves an existing output file unchanged.",
  ["inputs", "fault_sequences"], "all texts of that form, all files to list, all combinations of optional items",
  "No test runs the program at all; which optional items are left out, and where in the file tables lie, decides what goes wrong.",
  [L+"oitable-demo.c"],
  [("text scanned, tables written", L+"oitable-demo.c demo_write()"), ("tables listed with their references", L+"oitable-demo.c demo_read()")],
  "property-based testing of the program with generated texts, files and faults", "6000 / 80000 texts and files; values in the text have no blanks")

p('C18','Recomputing over a growing or rolling history never revises a value',
 'A batch value once delivered for a bar is final: asking again later with the same first requested bar, after more bars were appended, with bars older than the look-back window dropped, or with anything stored before that window and after the last requested bar, gives the identical value, wherever in the index range (up to 2^31 - 1000) the bars lie, and the reported frame is always exactly the bars from the first one with a full look-back to the last requested one. For functions defined on a window alone (no unstable period, no running total or recursive average) the value is also the same, up to rounding, whichever bar was asked for first.',
 ['histories','inputs'],'every function and parameters, every sequence of requests over a history that grows at the end and is trimmed at the front, any memory contents around the window, double and single precision entry points, default compatibility (in Metastock mode the first stored bar seeds averages, so nothing is dropped there)',
 'The tests sample a few ranges of one series and never move the series in memory.',[F+'ta_*.c',F+'ta_utility.h'],[('range handling','startIdx/endIdx adjustment and window arithmetic in TA_* and TA_S_*')])
p('C22','Bad arguments are refused and change nothing; valid ones are always accepted',
 'A call with an argument outside its documented domain (a negative or reversed range, a parameter outside its described range or list, a missing input, output, slot or stream) is refused with the documented code (range codes for the range, bad parameter otherwise, -1 from Lookback), writes to none of its outputs, keeps no memory, opens no stream, and leaves live streams and every later call as if it had not been made. Calls whose arguments are inside the domain, boundary values included, are never refused.',
 ['histories','inputs'],'every function, both precisions, every parameter at, just inside and just outside its limits, mixed with good calls and live streams',
 'The tests pass valid arguments almost everywhere.',[F+'ta_*.c',A+'tables/*.c'],[('argument checks','range checks at the top of TA_*, TA_*_Lookback, TA_*_StateInit, TA_*_BatchState'),('described ranges','TA_OptInputParameterInfo tables')])
p('C23','A stream serves any number of bars',
 'How long a stream has lived does not matter. At any age, in particular past 2^15, 2^31 and 2^32 bars and up to 2^60, it delivers for the next bars bit-identically what a young stream with the same history window delivers, in single steps and in blocks, never asks for more data again, and can be saved and restored at that age. (MAXINDEX, MININDEX and MINMAXINDEX report positions as int and are left out.)',
 ['histories','crash_points'],'every function and parameters, any age of the stream, any number of jumps forward in time, saves and restores at any age',
 'No test feeds more than a few hundred bars, and none could feed 2^32.',[F+'ta_*.c',H+'ta_defs.h'],[('bar counter','mem_index and the macros of ta_defs.h'),('age-dependent branches','TA_*_State')])
p('C24','A broken quote harms only what is computed from it',
 'When the feed contains broken quotes (NaN, infinities, absurd, zero, negative, subnormal or stuck values, high below low), no call crashes, hangs, touches memory outside its buffers or leaks, and every call returns the same code and the same number of values at the same bars as over the clean feed. Values for bars before the first broken quote are bit-identical to those of the clean feed, so are all values of streams and calls that are not fed a broken quote (streams over another feed, streams opened and ranges starting after the last one). Integer results stay inside what the function can report. Functions that only pick, compare or combine single bars of their window (MIN, MAX, AROON, WILLR, MOM, ROC, price and math transforms and the like) give the clean value again as soon as the broken quotes have left the window. A stream saved and restored behind a broken quote goes on exactly like the one it was saved from.',
 ['inputs','histories','fault_sequences'],'every function and parameters, broken quotes of any kind in any input at any bars, single steps, blocks, batch calls of both precisions, saves and restores, reopened streams',
 'The tests feed one clean series.',[F+'ta_*.c',H+'ta_defs.h'],[('value-dependent control flow','comparisons and casts of values to int in TA_* and TA_*_State (e.g. HT_*, MAVP, MIN/MAX family)'),('stream memory','TA_*_State structures')])
p('C25','An open stream keeps the settings it was opened under',
 'Settings belong to the moment a stream is opened. Whatever happens to the global settings afterwards (unstable periods, compatibility, candle settings set, changed or restored to defaults, the library initialised again or shut down), a stream already open goes on exactly as if nothing had been changed: the same bars of warm-up, the same return codes, bit-identical values, in single steps and in blocks; and so does a copy restored, under the new settings, from an image of it. Changing settings never makes an open stream or a restored copy touch memory outside its own, return an undocumented code or leak. (Known finding: the streams of candlestick patterns look the candle settings up at every bar.)',
 ['configurations','histories','crash_points'],'every function and parameters, any settings at opening, any settings calls at any bar of the life of the stream, images taken and restored anywhere in between',
 'The tests set the settings once and never change them while a stream is open.',[F+'ta_*.c','ta-lib-rt/c/src/ta_common/ta_global.c'],[('settings read while streaming','TA_GLOBALS_COMPATIBILITY, TA_GLOBALS_UNSTABLE_PERIOD and LOOKBACK_CALL in TA_*_State'),('settings captured at opening','TA_*_StateInit, mem_size, MetastockMode, preprRes, fastEMADelay, fastMADelay'),('settings','TA_SetUnstablePeriod, TA_SetCompatibility, TA_SetCandleSettings, TA_RestoreCandleDefaultSettings, TA_Initialize, TA_Shutdown')])
p('C19','Single and double precision entry points agree',
 'A client that stores its history in single precision gets from TA_S_X what it would get from TA_X on the same quotes: the same return code, the same frame (first bar and number of values), the same integer results, and the same values up to the rounding of single precision arithmetic on the quotes themselves.',
 ['inputs','histories','configurations'],'every function and parameters, every history whose quotes a float can hold (for the few functions that add, subtract or multiply quotes in single precision: quotes on which that is exact), every requested range, under every global setting',
 'The tests call the single precision entry points on one series with default parameters.',[F+'ta_*.c'],[('single precision bodies','TA_S_*'),('temporary buffers of a different type','USE_SINGLE_PRECISION_INPUT branches')])
p('C20','Outputs may overwrite inputs',
 'Passing an input array (or several, one per output) as output array, to a batch call or to BatchState, gives the values, codes and frames that separate arrays give, through any chain of such calls over one set of arrays, and changes no array that is neither output nor shared. (Of a shared array the elements past the delivered values, up to the requested end, are unspecified.)',
 ['inputs','histories','programs'],'every function and parameters, every assignment of the input and output arrays of a call to a set of shared series with the outputs pairwise distinct, every chain of calls',
 'The tests share a few arrays on one series and never chain calls.',[F+'ta_*.c'],[('buffer selection','temporary buffers in TA_* (STOCH, STOCHF, MACD, BBANDS, DEMA, ...)'),('write order','output written behind the read position')])
p('C21','Reflection data describes the functions that exist',
 'Group and function tables, parameter descriptions, the XML description and the headers describe the same functions, parameters, ranges and defaults.',
 ['configurations'],'every function and table entry','The tests do not cross-check the tables.',[A+'tables/*.c',A+'ta_group_idx.c',H+'ta_func.h'],[('generated tables','src/ta_abstract/tables')])
p('C26','The image of a stream is a function of its history',
 'What StateSave writes depends only on the function, the parameters and settings the stream was opened with, and the bars it was fed: the same history gives the same bytes in every process, whatever heap, stack and output memory contained, whether the bars came singly or in blocks, and however often the stream was saved, or saved and restored, on the way. Saving twice in a row gives the same bytes, a restored stream saves the bytes it was restored from, and no byte of uninitialised or released memory, and no address, reaches the file. (Images can therefore be compared, checksummed and deduplicated, and replicas verified against each other.)',
 ['histories','crash_points','inputs'],'every function, parameters and settings, every feed and division into blocks, saves and restores at any bar, any previous memory contents',
 'The tests compare values of a restored stream, never the images, and run over one memory content.',[F+'ta_*.c',H+'ta_memory.h' if 0 else 'ta-lib-rt/c/src/ta_common/ta_memory.h','ta-lib-rt/c/src/ta_func/ta_utility.h'],[('saved fields','TA_*_StateSave and TA_*_StateLoad'),('state initialisation','TA_*_StateInit, TA_Calloc of states and ring buffers'),('ring buffers and Hilbert variables','CIRCBUF_STRUCT_SAVE/LOAD, SAVE/LOAD_HILBERT_VARIABLES_STRUCT')])
p('C27','Every function delivers the indicator it documents',
 'For every function, valid parameters, unstable periods, compatibility mode and history of ordinary quotes, every value delivered for a bar is the one the published definition of that indicator gives for that bar (up to floating-point rounding), and values are delivered for exactly the bars from max(requested start, look-back) to the requested end, with the look-back the definition implies. This holds alike for batch calls in both precisions over any sub-range, for streams fed singly or in blocks, and for streams that were saved, lost and restored on the way: all of them refine one small executable model per indicator (sums taken afresh over each window, composites built from their parts, recursive averages seeded with the mean of the first values after the look-back, Metastock averages with the first bar), and not merely one another.',
 ['inputs','histories','crash_points'],'every function, valid parameters and settings, ordinary quotes (finite, positive or around zero, flat, trending, spiky), every sub-range, feed division and crash point',
 'The tests check a handful of values of one 252-bar series with default-like parameters, and regression values of the implementation itself.',[F+'ta_*.c'],[('batch calls','TA_X and TA_S_X'),('look-backs','TA_X_Lookback'),('streams','TA_X_State, TA_X_BatchState, TA_X_StateSave/Load'),('averages shared by composites','ta_MA.c, ta_EMA.c, ta_utility.c')])
G='ta-lib-rt/c/src/tools/gen_code/'
p('C28','A failed regeneration of the sources loses nothing and is never called success',
 'The source generator gen_code may be killed at any moment, and any of its file operations, helper programs (pre-processor, Java) or allocations may fail, a disk may be full from then on: at every moment every file of the source tree holds either what it held before the run or what an undisturbed run makes of it, never a torn, truncated or empty version; a run that ends by itself and did not do all its work ends with a failure code and without the success message; temporary files do not stay among the sources after a run that reports success; and the next undisturbed run repairs everything, giving the tree an undisturbed run would have given in the first place.',
 ['crash_points','fault_sequences','histories'],'every operation of the generator as a fault point, every fault kind, single and lasting faults, trees with developers\' edits and damaged generated files',
 'No test runs the generator at all.',[G+'gen_code.c',G+'gen_code.h'],[('targets and temporary files','fileOpen, fileClose, copyFile'),('the two passes over a source','doFuncFile, extractTALogic'),('outcome of a run','genCode, main')])
p('C29','Regenerating the sources keeps what developers wrote and reaches a fixed point',
 'Whatever developers wrote outside the generated sections of the function sources survives every run of gen_code unchanged and in order; the single precision part of every source repeats its calculation line for line (without comments), so that an edit of the calculation reaches both precisions; generated sections and generated files that were lost, truncated, garbled or deleted come back exactly as the tables and templates describe them, whatever was left of them; a source started from nothing is completed; a source that has lost the START or END line of a generated section is left as it is and the run fails; and a second run over an up-to-date tree writes no source file at all.',
 ['histories','inputs'],'every function source, edits at any line outside the generated sections, damage to any generated section or file, any sequence of runs',
 'No test runs the generator at all.',[G+'gen_code.c','ta-lib-rt/c/src/ta_abstract/templates'],[('sections of a source','doFuncFile, extractTALogic, skipToGenCode'),('comparison with the old file','fileClose, areFileSame'),('generated files','gen_retcode, doDefsFile, createProjFile, genJavaCodePhase2, generateFuncAPI_C')])

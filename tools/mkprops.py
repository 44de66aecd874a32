#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
F='ta-lib-rt/c/src/ta_func/'; A='ta-lib-rt/c/src/ta_abstract/'; H='ta-lib-rt/c/include/'; G='ta-lib-rt/c/src/ta_common/'
P=[]
def p(id,title,st,over,txt,why,files,mech): P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=txt),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
p('C01','Streaming delivers the batch values, first at the look-back bar',
 'For every function, parameter set and bar sequence, feeding the bars one at a time (or in blocks) reports "need more data" for exactly the first look-back bars and a result for every later bar. Each result equals, up to floating-point rounding, what the batch call over the whole sequence gives for that bar. This holds across any save, restart and reload in between and for any unstable-period, compatibility and candle settings in force.',
 ['histories','inputs','configurations','crash_points'],'all 165 functions, all legal parameters, any bar history and any cut of it into single bars, blocks and restarts, under any global settings',
 'The generated tests compare one or two parameter sets per function on one 252-bar series under default settings and never cut the stream; ties, flat bars, periods of 1, unstable periods, Metastock mode and non-default candle settings are not reached.',
 [F+'ta_*.c',H+'ta_func.h',A+'frames/ta_frame.c'],[('one-bar step','TA_*_State'),('block step','TA_*_BatchState'),('batch oracle','TA_*'),('warm-up length','TA_*_Lookback')])
p('C02','A checkpointed stream resumes bit-identically after a crash',
 'If a stream is saved after any bar and the process dies, a stream restored from that image continues exactly as the uninterrupted stream would have: same readiness, bit-identical values, for every later bar. This does not depend on what the process did after the save, nor on where in the warm-up the image was taken.',
 ['crash_points','histories'],'every function, every bar at which the image is taken, every crash point after it, repeated checkpoint/restore generations',
 'The tests save and reload once, right after the state is complete, in the same process, on fault-free files.',
 [F+'ta_*.c',F+'ta_utility.h',A+'frames/ta_frame.c'],[('image writer','TA_*_StateSave'),('image reader','TA_*_StateLoad'),('ring buffers','CIRCBUF macros in ta_memory.h')])
p('C03','Saving a stream never disturbs it',
 'Saving is a pure observation: after any number of successful or failing saves the stream goes on delivering bit-identically the values it would have delivered had it never been saved. An image written after failed attempts restores as well as one written without them.',
 ['fault_sequences','histories'],'any number and placement of saves, any device fault during them',
 'The tests save at most once per stream and never with a failing device.',
 [F+'ta_*.c'],[('image writer','TA_*_StateSave')])
p('C04','A save never reports success for bytes the device refused',
 'When the device refuses some of the bytes of an image (full disk, I/O error, transient error), either the save itself or the flush/close of the stream it was written to reports the failure; both never succeed together. The save reports it as an I/O failure and nothing else, and a save the caller was told succeeded is always restorable.',
 ['fault_sequences','crash_points'],'any byte offset and kind of device fault, any stdio buffer size, appended or fresh files, crash afterwards',
 'No test injects a device error; buffering decides whether the failure shows at the write or at the flush.',
 [F+'ta_*.c',G+'ta_memory.h'],[('short-write detection','fwrite checks in TA_*_StateSave and CIRCBUF save macros')])
p('C05','A torn or unreadable image is refused and leaves nothing behind',
 'Loading an image of which only a proper prefix is readable, because of a crash, a truncated file or a read error (also a transient one, after which reading works again), fails with an I/O error, never with success, a crash, a hang or an absurd allocation. After the failure the slot can be freed, no memory is lost, and a good image loads into it.',
 ['crash_points','fault_sequences'],'every function and stream position, every truncation length and read-error offset, torn tails left by a crash during a save',
 'The tests only load complete images.',
 [F+'ta_*.c',G+'ta_memory.h'],[('short-read detection','fread checks in TA_*_StateLoad and CIRCBUF load macros'),('clean-up','TA_*_StateFree')])
p('C06','Images are self-delimiting records of a shared file',
 'Several streams and application records can be written one after the other into one file and read back in order: each load consumes exactly the bytes its save produced. Every restored stream then continues bit-identically.',
 ['histories','programs'],'any sequence of streams (any mix of functions, parameters and positions) in one file, any buffering and short transfers',
 'The tests save one stream per file.',
 [F+'ta_*.c'],[('record framing','TA_*_StateSave / TA_*_StateLoad')])
p('C07','Empty and occupied stream slots obey the slot rules',
 'Stepping an empty slot is refused as a bad parameter, freeing or saving one is a harmless success, and restoring an empty image leaves the slot empty and consumes exactly that image. Loading into an occupied slot is refused as a bad parameter and leaves its stream running undisturbed; freeing twice is harmless.',
 ['histories'],'any sequence of step, block step, save, load and free over empty, live and freed slots',
 'The tests only use a slot in the order init, step, save, load, free.',
 [F+'ta_*.c'],[('slot checks','TA_*_State, TA_*_BatchState, TA_*_StateFree, TA_*_StateSave, TA_*_StateLoad')])
p('C08','Stream life cycles conserve memory',
 'Over any history of opening, stepping, saving, loading and freeing streams, every block the library allocated is released exactly once by the time the last stream is freed. No call releases a block it does not own or touches released or foreign memory, whether the history contains failing saves and loads or not.',
 ['histories','fault_sequences'],'any life-cycle history over several slots, with failing saves and truncated loads mixed in',
 'The tests leak-check nothing and free each state once.',
 [F+'ta_*.c',G+'ta_memory.h'],[('ownership','TA_*_StateInit, TA_*_StateLoad, TA_*_StateFree')])
p('C09','A batch call out of memory says so, loses nothing and can be retried',
 'If any allocation a batch call makes fails, the call returns the allocation error (never success, a crash or another code), keeps no memory, and the same call made again with memory available delivers exactly the normal result. This holds for the double and the single precision entry points.',
 ['fault_sequences','inputs'],'every function with working buffers, every allocation index, one-off and persistent failure',
 'No test fails an allocation.',
 [F+'ta_*.c'],[('working buffers','ARRAY_ALLOC / TA_Malloc in batch functions')])
p('C10','Opening or restoring a stream out of memory says so and cleans up',
 'If any allocation fails while a stream is opened or restored, the call returns the allocation error, freeing the slot releases everything that was built and clears it, and a later attempt on the same slot succeeds and behaves normally.',
 ['fault_sequences'],'every function, every allocation index of the open or the restore, one-off and persistent failure, repeated attempts',
 'No test fails an allocation.',
 [F+'ta_*.c'],[('state construction','TA_*_StateInit, TA_*_StateLoad'),('clean-up','TA_*_StateFree')])
p('C11','Streams driven by different threads do not influence each other',
 'Callers that each drive their own streams (step, block step, save, load, free) may be preempted anywhere inside a library call in favour of another caller: every stream still delivers bit-identically what it delivers when driven alone.',
 ['schedules'],'any interleaving, at the granularity of individual loads and stores, of two to four callers over any functions',
 'The tests are single-threaded.',
 [F+'ta_*.c',G+'ta_global.c'],[('absence of hidden shared state','statics and globals written by TA_*_State and friends')])
p('C12','How a feed is cut into blocks does not matter',
 'For any division of a feed into blocks and single bars, a block reports one element per bar, the same values as feeding its bars one at a time, a not-available mark for every warm-up bar, and the return code of its last bar. The offset at which a block lies in its arrays is irrelevant, nothing outside the reported elements is touched, and an empty block is a success that delivers nothing and leaves the stream alone.',
 ['histories','inputs'],'every function, every segmentation, blocks at any array offset, across save and reload',
 'The tests feed one block holding the whole series.',
 [F+'ta_*.c'],[('block step','TA_*_BatchState')])
p('C13','Batch calls are re-entrant',
 'Batch and look-back calls made by different threads may be preempted anywhere in favour of each other and still give bit-identically the results they give alone.',
 ['schedules'],'any interleaving, at the granularity of individual loads and stores, of two to four callers over any functions and parameters',
 'The tests are single-threaded.',
 [F+'ta_*.c',G+'ta_global.c'],[('absence of hidden shared state','statics and globals written by batch functions')])
p('C14','Global settings follow the last accepted call, and only that',
 'After any history of initialise, shutdown and settings calls, every getter and every calculation behaves as if only the last accepted value of each setting had ever been set, defaults otherwise; rejected calls change nothing. An unstable period delays exactly the functions it names by exactly that many bars without changing their later values, and each candle setting governs the patterns documented to use it by its range type, period and factor.',
 ['histories','configurations'],'any history of initialise/shutdown/set/restore/get calls with valid and invalid arguments',
 'The tests set a few settings one at a time from a fresh library.',
 [G+'ta_global.c',F+'ta_utility.c',F+'ta_utility.h'],[('settings store','TA_Globals'),('setters and getters','TA_SetUnstablePeriod, TA_SetCandleSettings, TA_RestoreCandleDefaultSettings, TA_SetCompatibility')])
p('C15','The reflective interface is the direct interface',
 'After any history of accepted and rejected parameter calls on any number of parameter holders, a reflective call does exactly what the direct call with the last accepted parameters does: same return code, framing and bit-identical values, for batch, look-back and every streaming operation. Calls with a wrong index, type or missing pointer are refused and change nothing, and a call before all inputs and outputs are set is refused.',
 ['histories','programs'],'any history of holder calls with valid and invalid arguments over several holders',
 'The tests set each parameter once, correctly, and compare a handful of functions.',
 [A+'ta_abstract.c',A+'frames/ta_frame.c',A+'tables/*.c'],[('holder','TA_ParamHolderAlloc, TA_Set*Param*'),('dispatch','TA_CallFunc, TA_CallFuncState, ...; frames')])
p('C16','The reflective interface out of memory says so, loses nothing and can be retried',
 'If any allocation made for a group table, a function table or a parameter holder fails, the call returns the allocation error with a null result, keeps no memory, and the same call made again succeeds with complete content. Freeing any result, or a null one, releases everything.',
 ['fault_sequences','histories'],'every group, every function, every allocation index, mixed with successful allocations and frees',
 'No test fails an allocation.',
 [A+'ta_abstract.c'],[('tables','TA_GroupTableAlloc, TA_FuncTableAlloc'),('holder','TA_ParamHolderAlloc')])
p('C17','Results do not depend on what memory held before',
 'Repeating a history of batch and streaming calls over heap, stack and output memory with different previous contents gives bit-identical results and return codes. In particular no result depends on uninitialised or released memory or on earlier calls.',
 ['histories','inputs'],'every function, any history, any previous content of heap blocks, stack and output arrays',
 'Tests run once in a fresh process, where new memory is mostly zero.',
 [F+'ta_*.c'],[('initialisation of buffers and states','TA_*, TA_*_StateInit')])
d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXTRA=os.path.join(d,'tools','props_extra.py')
if os.path.exists(EXTRA): exec(open(EXTRA).read())
with open(os.path.join(d,'properties.jsonl'),'w') as f:
    for x in P: assert len(x['title'])<=80,x['title']; f.write(json.dumps(x)+'\n')

#!/usr/bin/env python3
import json, os
d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={'C28':'seeded simulation of the source generator on an in-memory disk: kills at any operation, full disk, failing reads, writes, opens, renames, closes, helper programs and allocations; every state of the tree compared with before and after, then a repairing run','C29':'seeded simulation of developers\' edits, damage to generated parts and runs of the source generator on an in-memory disk; the developers\' lines and the undamaged tree as reference model','C27':'seeded simulation of batch calls over random ranges and streams with random block divisions and crash/restores; refinement of executable reference models as oracle','C26':'seeded simulation of twin processes with different memory contents, block divisions, saves and crash/restores; byte equality of the images as oracle','C25':'seeded simulation of settings histories under open streams, with crash/restore in between; the same stream with nothing changed as oracle','C19':'seeded simulation of clients recomputing in either precision over a growing history, dirtied memory and settings; the double precision call as oracle','C20':'seeded simulation of in-place pipelines over a shared arena; the same pipeline over separate arrays as oracle','C24':'seeded simulation of feeds with injected broken quotes, crash/restore behind them; the same history over the clean feed as oracle','C23':'seeded simulation of time jumps: streams moved 2^15..2^60 bars ahead, with crash/restore at that age; an unmoved twin as oracle','C01':'seeded simulation of stream histories with crash/restart; batch call as refinement oracle','C02':'seeded simulation: crash at arbitrary bars, lost unsynced data, restore; uninterrupted stream as oracle','C03':'seeded simulation with device faults during saves; undisturbed stream as oracle','C04':'seeded device-fault injection on a simulated disk; refused bytes vs reported outcome','C05':'seeded crash/truncation/read-error injection on a simulated disk','C06':'seeded simulation of multi-record files with short transfers and crash','C07':'seeded operation histories on stream slots vs slot model','C08':'seeded life-cycle histories on a simulated heap (conservation check, AddressSanitizer)','C09':'seeded allocation-failure injection on a simulated heap','C10':'seeded allocation-failure injection on a simulated heap','C11':'seeded preemptive scheduling of coroutines at every load/store','C12':'seeded segmentation histories; bar-at-a-time stream as oracle','C13':'seeded preemptive scheduling of coroutines at every load/store','C14':'seeded settings histories vs executable reference model','C15':'seeded parameter-holder histories vs executable model and the direct interface','C16':'seeded allocation-failure injection on a simulated heap','C17':'seeded replay over differently dirtied heap, stack and outputs','C18':'seeded simulation of a client recomputing over a growing and trimmed history with dirtied surroundings; recorded deliveries as oracle','C22':'seeded histories of refused and good calls over live streams; argument-domain model and undisturbed twin streams as oracle'}
NOTE={'C28':'Sampled fault points. Process kills, not power loss: what was handed to the disk stays. mcpp, javac and java are stand-ins; only the Linux build of the generator.','C29':'Sampled edits and damage; edits are single inserted statements. mcpp, javac and java are stand-ins; only the Linux build of the generator. The committed generated files themselves are not compared with what the generator makes today.','C27':'Sampled histories, parameters and settings. A value is compared within 1e-8 of the size of the series; a larger difference counts unless rounding-sized changes of the quotes move the model as far. Index outputs may name any bar that holds the extreme. Not judged: MAMA averages of computed series, windows without variation for BETA and CORREL, flat RSI windows for STOCHRSI; single precision of functions that do float arithmetic is left to C19, candlestick settings to C14.','C26':'Sampled histories; all functions and all settings.','C25':'Sampled histories. Streams of candlestick patterns whose own candle settings change are a known finding: they are driven on for memory safety and return codes, their values are not judged (and those opened with a look-back of 0 are spared the change, which would end the process).','C19':'Sampled histories; a difference beyond 1e-6 counts only if rounding of the quotes themselves cannot explain it (probed by perturbing them).','C20':'Sampled pipelines; elements of a shared array behind the delivered values are unspecified.','C24':'Sampled histories. Casts of NaN to int are executed as x86-64 does them; the prompt recovery is claimed for a listed set of window functions without running sums.','C23':'A jump moves the bar counter of the outer stream (by a multiple of its look-back), as if the bars had been fed; other state is that of the young stream. Real feeding is limited to about 66 000 bars (in C01).',
'C01':'Sampled histories over all functions; rounding tolerance 1e-6 relative plus an ill-conditioning probe (the batch call itself on inputs perturbed by a few ulps). Trusts the batch call as the meaning of a function.',
'C11':'Preemption points are all loads, stores and basic-block edges of the library as compiled by clang -O0; sampled schedules, sequentially consistent memory.','C13':'Preemption points are all loads, stores and basic-block edges of the library as compiled by clang -O0; sampled schedules, sequentially consistent memory.'}
checks=json.load(open(os.path.join(d,'tools','claimed.json')))
na=[('C21','a static fact about generated tables: nothing nondeterministic for a simulator to decide')]
for c in T:
    if c not in checks: na.append((c,'check not built yet'))
m=dict(version=1,setup_cmd='python3 check.py --setup',checks=[dict(property=c,quick_cmd='python3 check.py %s --tier quick'%c,thorough_cmd='python3 check.py %s --tier thorough'%c,evidence_file='evidence/%s.json'%c,technique=T[c],level='exploration',level_note=NOTE.get(c,'Seeded random sampling of histories and faults over all functions: a clean run is evidence, not proof. Trusts the simulated heap and device and glibc stdio.')) for c in checks],not_applicable=[dict(property=a,reason=b) for a,b in na],notes='No hooks in /repo: the seams used are malloc/free (symbol redirection at link time), FILE* (fopencookie) and compiler instrumentation of the library objects.')
json.dump(m,open(os.path.join(d,'MANIFEST.json'),'w'),indent=1)

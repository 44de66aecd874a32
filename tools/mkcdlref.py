#!/usr/bin/env python3
"""One-off tool (not part of any check): froze the recognition rules of the candlestick patterns, as the
original tree states them, into sim/cdlref.inc. Rolling totals are dropped; the reference averages directly."""
import re,subprocess,sys
R='/repo'; P='ta-lib-rt/c/src/ta_func/'
names=[l.split('/')[-1] for l in subprocess.run(['git','-C',R,'ls-tree','--name-only','f7f09ac',P],stdout=subprocess.PIPE,text=True).stdout.split() if '/ta_CDL' in l]
out=['// Written by tools/mkcdlref.py, then reviewed by hand: recognition rules and look-backs of the candlestick patterns.']
tab=[]
for n in names:
    s=subprocess.run(['git','-C',R,'show','f7f09ac:'+P+n],stdout=subprocess.PIPE).stdout.decode('latin1').replace('\r','')
    fn=re.match(r'ta_(\w+)\.c',n).group(1)
    s=''.join(l+'\n' for l in s.split('\n') if not l.startswith('/* Generated */'))
    s=re.sub(r'/\*.*?\*/','',s,flags=re.S); s=re.sub(r'//[^\n]*','',s)
    lb=re.search(r'return\s+(.*?);',s[s.index('{'):],re.S).group(1)
    sets=sorted(set(re.findall(r'TA_CANDLE(?:AVERAGE|AVGPERIOD|RANGE)\s*\(\s*(\w+)',s)))
    m=re.search(r'do\s*\{(.*?)\}\s*while\(\s*i\s*<=\s*endIdx\s*\)',s,re.S)
    body=m.group(1)
    body=re.sub(r'#ifdef TA_LIB_PRO.*?#else(.*?)#endif',r'\1',body,flags=re.S)
    body=re.sub(r'#ifdef TA_LIB_PRO.*?#endif','',body,flags=re.S)
    # cut at the first total update
    i=len(body)
    k=re.search(r'\n\s*(for\s*\(\s*totIdx|\w+PeriodTotal\w*(\[\w+\])?\s*\+=|i\+\+;|\w+TrailingIdx\w*\s*\+\+)',body)
    if k: i=k.start()
    body=body[:i]
    body=re.sub(r'TA_CANDLEAVERAGE\s*\(\s*(\w+)\s*,\s*[\w\[\]]+\s*,\s*([^()]*?)\s*\)',r'AVG(\1,\2)',body)
    body=re.sub(r'outInteger\[outIdx\+\+\]\s*=\s*',r'return ',body)
    body=re.sub(r'\s+',' ',body).strip()
    if 'HIKKAKE' in fn: body=re.sub(r'return (patternResult \+ 100 \* \( patternResult > 0 \? 1 : -1 \)); patternIdx = 0;',r'patternIdx = 0; return \1;',body)
    if fn=='CDLTRISTAR': body=body.replace('outInteger[outIdx] = 0;','int v = 0;').replace('outInteger[outIdx] =','v =').replace('outIdx++;','return v;')
    lb=re.sub(r'TA_CANDLEAVGPERIOD\s*\(\s*(\w+)\s*\)',r'PER(\1)',lb); lb=re.sub(r'\s+',' ',lb)
    tab.append((fn,lb,sets,body))
for fn,lb,sets,body in tab:
    out.append('static int lb_%s(const Cs* cs) { (void)cs; return %s; }'%(fn,lb))
    out.append('static int ref_%s(CDLARGS) { %s }'%(fn,body))
out.append('static const CdlRef CDLREF[] = {')
for fn,lb,sets,body in tab: out.append('  {"%s", ref_%s, lb_%s, %s},'%(fn,fn,fn,'|'.join('1u<<TA_'+x for x in sets) or '0'))
out.append('};')
open(sys.argv[1],'w').write('\n'.join(out)+'\n')

import json,subprocess
MAP={ # substring -> property
'limiting the amplitude':'C01','adding a channel':'C01','activating the amplitude':'C01','created from a signal':'C01','reports its amplitude':'C01',
'spectrum smoothing inv':'C02','plots do not':'C02','cached before deact':'C02','clearing the window':'C02',
'FFT-based cross':'C05','median average in':'C05','single frame':'C05','frequency vector of the spectrogram':'C06','time vector':'C06','detrended before':'C05','median average is real':'C05','zero-padded spectra':'C05','reconstructing a framed':'C06','inverse STFT':'C06','cross-spectral matrix without':'C05','amplitude scalings of':'C05','normalised spectra':'C05','scaling a spectrum does':'C05','Welch spectrum of a single':'C05','padding, trimming':'C07','applying a gain keeps':'C08','crest factor':'C08','delaying and resampling':'C07','appending multiband':'C07','time selection':'C07','logarithmic fade':'C07','RMS value':'C08','calibration from':'C08','latency of several':'C09','activity detector':'C08'}
L=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','3a2420f..'],text=True).splitlines()
import sys
p='/verif/known_findings.jsonl'
cur=[json.loads(l) for l in open(p) if l.strip()]
have={c.get('commit') for c in cur}
extra=json.load(open('/verif/tools/fixmap.json'))
MAP.update(extra)
for l in L:
    h,m=l.split(' ',1); m=m.replace('fix: ','')
    if h in have: continue
    k=[v for kk,v in MAP.items() if kk in m]
    if len(k)!=1: print('??',h,m,k); continue
    cur.append(dict(property=k[0],status='fixed',commit=h,what=m,key='fixed-'+h))
for c in cur:
    if c['status']=='fixed': c['record']=f"fixed: property={c['property']} {c['commit']} {c['what']}"
open(p,'w').write(''.join(json.dumps(c)+'\n' for c in cur))

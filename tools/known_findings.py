import json,subprocess
log=[l.split(' ',1) for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()]
prop={"draw frequencies in Hz":("C18","densities of sources, and sensitivity curves, given in other units than Hz (e.g. mHz) were drawn with their bare numbers on axes in Hz"),
"record no SNR for merged":("C20","get_snr_stationary and get_snr_evolving returned zero for merged sources but kept the SNR recorded before they merged (also C12)"),
"plot histograms of weighted sources":("C18","the default histogram of sources with weights raised, since numpy can't choose bins for weighted data"),
"save sources all at once":("C03","a failed or interrupted save destroyed the existing file, write errors were ignored (zeros saved), another process's new file was overwritten without permission (also C04)"),
"count the eccentric":("C17","the warning about eccentric evolving sources counted the wrong sources"),
"load sources that were saved with a custom":("C05","sources with a custom instrument couldn't be loaded at all (also C06)"),
"use the same 'auto' mission":("C20","DECIGO's 'auto' mission length was 5 yr for the SNR but 4 yr for the noise"),
"keep an 'auto' mission":("C08","calculating an SNR replaced an 'auto' mission length, so later results for another instrument depended on history (also C13)"),
"undo a change of gw_lum_tol":("C09","a change of gw_lum_tol that failed left the tolerance changed but its harmonics not"),
"allow sources to be deep-copied":("C10","copy.deepcopy of sources raised or bound the parameters to the wrong class"),
"re-interpolate the sensitivity curve for":("C08","sc_params |= {...} and setdefault changed parameters without the curve"),
"undo changes to sc_params":("C08","impossible sc_params were kept although the curve was still the old one"),
"keep the weights and interpolate_sc":("C10","evolving into a new class lost the weights and interpolate_sc (also C08, C12)"),
"evolve sources in place":("C13","a failure while evolving in place left some values evolved and others not"),
"keep the recorded SNRs":("C13","a failure part-way through get_snr left a mixture of old and new SNRs"),
"don't overwrite SNRs":("C11","SNR arrays that had been returned were overwritten by later calculations"),
"allow a single source with a position":("C16","a single source with a position but without inclination or polarisation couldn't be constructed"),
"don't edit the caller's timesteps":("C11","evol_ecc overwrote the timesteps array of the caller"),
"fall back on the approximate":("C07","a missing response-function file raised instead of falling back on the approximation"),}
out=[]
out.append({"status":"known","property":"C02","signature":"pool-map-never-returns-after-worker-death","what":"a worker process that is killed while it has jobs (e.g. by the out-of-memory killer) is replaced by the pool but its jobs are not, so a parallel evolution waits for ever instead of raising (multiprocessing's Pool never notices; repairing it needs another kind of pool than schwimmbad's MultiPool)"})
for h,m in log:
    if not m.startswith('fix:'): continue
    k=[x for x in prop if x in m]
    assert len(k)==1,(m,k)
    p,w=prop[k[0]]
    out.append({"status":"fixed","property":p,"commit":h,"what":w,"line":f"fixed: property={p} {h} {w}"})
open('/verif/known-findings.jsonl','w').write(''.join(json.dumps(o)+'\n' for o in out))

import json,os,re
V='/verif'
missed={'p29-dt-cache':'calls that share part of their arguments are made before the call that is compared with a fresh process','p02-rate-nonneg':'halos with the early index below the late one','p34-minus-one':'satellites of the halo with id 0',
'p01-index-order':'halos with the early index below the late one','p10-id-zero':'malformed output counts as a violation, columns per line','p11-prefix-replace':'columns read by a path below the group','p13-scatter-axis':'malformed output counts as a violation','p34-truncate-first':'more halos in a bin than are kept, types mixed',
'p12-bool-zero':'masses of a few Msun in the TNG catalog',
'p06-tpeak-tolerance':'growth by less than 0.001 dex per step',
'p02-rate-after-z0':'times later than z=0 and halos that peak later still are generated',
'p06-cut-from-peak':'histories that lose mass after an early peak',
'p08-t0-floor':'last snapshots between 5 and 15 Gyr',
'p09-nan-best':'losses that turn NaN in mid-descent (long steps)',
'p17-lgt0-from-table':'tables that stop before z=0 / start late',
'p18-paired-keys':'the stand-alone generators and independence of any two halos',
'p19-fec-at-tpeak':'supplied t_peak different from t_obs',
'p21-sat-tail':'tail quantiles, N=12000',
'p26-tiny-covariance':'covariances in arbitrary units',
'p29-caller-keys':'36 operations whose arguments are compared before/after',
'p31-rank-order':'12 ranks',
'p34-next-snapshot':'observation times between snapshots'}
rows=[]
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{d}/meta.json'))
    p=m['property']; extra=''
    if d in missed: extra='caught after strengthening: '+missed[d]
    else: extra='caught as first built'
    rows.append(f"| {d} | {m['needs']} | {p} | {extra} |")
txt=f"""{len(rows)} planted bugs are kept (seeded/); each builds, passes the stable tests, and has a demonstration that fails only
with it. All are caught by the check of their own property; the last column says which ones the check missed when the
bug was first tried and what was added.

| bug | needs | check | |
|---|---|---|---|
"""+'\n'.join(rows)
s=open(V+'/DESIGN.md').read()
i=s.index('## Planted bugs\n'); j=s.index('## Limits')
s=s[:i]+'## Planted bugs\n\n'+txt+'\n\n'+s[j:]
open(V+'/DESIGN.md','w').write(s)

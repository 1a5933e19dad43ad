import json,os,subprocess,collections
h=open('/verif/tools/design_head.md').read()
f=open('/verif/known_findings.txt').read().split('\n')
by=collections.OrderedDict()
for l in f:
    if l.startswith('fixed:'):
        _,p,c,d=l.split(' ',3)
        by.setdefault(c,[[],d])[0].append(p.split('=')[1])
h+='\n## Defects found and repaired\n\nEach is one `fix:` commit in /repo; nothing is left as a known finding.\n\n| commit | properties | what failed |\n|---|---|---|\n'
for c,(p,d) in by.items(): h+=f'| {c} | {", ".join(p)} | {d} |\n'
h+='''
False alarms met while building, and what was done: the model node lacked
details of memcached (binary oversized requests are swallowed, numbers keep
their length after a decrement, `touch` with a past time) — corrected after
`cmd/conformance` or reading its source; meta delete of a missing key and
negative binary expirations were asserted too strongly — statement and
generator corrected; a delete of an absent key on the secondary counted as
disturbance — the oracle now compares contents.
The simulated runtime itself was wrong in four places (a lost wake-up in
sync.Cond, a value handed to a select that had chosen another case, timers that
fired after Stop, busy waiting that stopped the clock) — corrected, and
`selftest/run.sh` now compares the simulated sync, time, context, channel and
net packages with the real ones on 69 small programs. Time limits did not allow
for 1 MiB values over a slow network — the generator scales them. Some mangled
replies of C21 were not certainly malformed (a miss with an odd key flag, a
header cut inside a pipeline, an endless but valid stream that ran into the
step limit) — a grammar (`plausible` in `dst/node/mangle.go`) now excludes all
that a lenient parser may accept.

Mutation testing (operators, constants, statements, conditions and locks of
every file, each mutant that passes the stable tests run against the checks of
its package) served to find gaps; the survivors that were looked at are
equivalent, change only messages, or lie outside what the properties say.

## Planted bugs

`seeded/`: made from the statements and the code, each confirmed to pass the
stable tests and to fail its demonstration. All are caught by the check of
their own property in the quick tier.

| bug | property | needs |
|---|---|---|
'''
for i in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{i}/meta.json'))
    h+=f'| {i} | {m["property"]} | {m["needs"]} |\n'
x='/tmp/design_tail.md'
if os.path.exists(x): h+=open(x).read()
open('/verif/DESIGN.md','w').write(h)

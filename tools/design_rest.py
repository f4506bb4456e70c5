import json,os,re
d=json.load(open('/verif/known_findings.json'))
out=[]
out.append('## Defects found\n\nEach was shown by a check on the unchanged tree (failing run and replay), repaired by one `fix:` commit with a\nminimal patch, and is listed in `known_findings.json`. The checks run on the\nrepaired tree without any suppression.\n')
for x in d['fixed']:
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',x)
    out.append(f'- {m[1]} `{m[2]}` {m[3]}')
out.append('''
One defect is recorded and not repaired:

- C16 `C16-refused-link-key`: a link with a read check that refuses is left out
  of the output, but its reference key is still shown. Existing callers may rely
  on keys of links being there (the key of an unfetched link is the only way to
  fetch it), so whether the check covers the key is the maintainers' decision,
  not a small repair. The finding matches only that class, field and kind; any
  other leaked key is a violation.

## Planted bugs and what catches them

`seeded/<id>` holds each change with a demonstration. Every one builds, passes
the 994 stable tests, and was confirmed with `tools/plant.py test` (which runs
demonstration, test suite and checks in a scratch copy).

| planted bug | needs | caught by |
|---|---|---|''')
for i in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{i}/meta.json'))
    out.append(f"| {i} | {m['needs']} | {m['property']} |")
out.append('''
Checks that missed a planted bug or a mutant at first and were strengthened:

- C01 missed c01-chain-shared-collector: programs overlapped only during first
  use. Hot rounds were added: everything is resolved, and two or three threads
  are preempted at a random fraction of the sequential run or inside callbacks.
- C15 missed c15-keeps-hash-looking: the stand-in hash now has the layout of
  bcrypt, and passwords include existing hashes and hash-like text.
- `tools/mutants.py` applies small syntactic changes (negated conditions,
  removed statements, changed constants and comparisons) to the library, keeps
  those that pass the test suite and runs the checks on them. A sample of the survivors was
  read; each of those is either equivalent for every stated property or led
  to a stronger generator or oracle.
''')
out.append('''## Determinism

One plan is one execution. It is checked in two ways: every check re-runs a
sample of its runs in a fresh process and compares the digest of the whole event
log (count in the evidence, `determinism_reruns`; differing runs would be listed
in `nondeterministic_runs` and printed as a WARNING), and `tools/determinism.sh`
compares the digests of many runs of every property between two processes with
different hash seeds and start states. A run of a batch that depends on what the
process did before it (a cache that is already warm) is re-run with the same
prefix; replay files hold that prefix.

Two sources of nondeterminism were found and removed this way: the number of
bytecode steps depends on what the interpreter executed before (plans that
preempt between bytecodes therefore run in a process of their own), and the
order of Python sets of strings depends on the hash seed (fixed by the runner).

## False alarms that were corrected

- C15 took the text `1234` inside a hexadecimal digest for a plain password:
  containment is only checked for passwords of eight or more characters.
- C05 first required nested embedded objects to mark their owner; an embedded
  instance reports its own changes, so the statement was narrowed to the
  object's own containers.
- C14 first required values given by a key path to be transformed; the library
  only resolves the path there. The statement speaks of marks, not transforms.
- C16 first required a class-level read check of nested objects; the library
  documents class checks for the object that is output. Field-level checks hold
  at every depth.
- C14: setting a calculated (setter) field by `set()` is ignored by the
  library; this is by design and outside the properties.

## Limits

- Search, not proof: a quick run explores the number of runs given above,
  `thorough` 20 to 40 times as many. Preemption is at library lines, callbacks,
  locks and (in some runs) bytecodes of library code, not inside C code.
- bcrypt, boto3, oss2, pip and the storage are stand-ins; what is verified is
  how the library uses them.
- Each property is decided on the class families defined in its module. They
  use every field kind the property mentions, but not every combination of
  modifiers.
- An interpreter crash under opcode tracing (a CPython 3.12 defect) gives no
  answer for that run; it is counted in `lost_runs_interpreter_crash`.
''')
s=open('/verif/DESIGN.md').read()
if '@@REST@@' in s: s=s.split('@@REST@@')[0]
elif '## Defects found' in s: s=s.split('## Defects found')[0]
open('/verif/DESIGN.md','w').write(s.rstrip()+'\n\n'+'\n'.join(out))

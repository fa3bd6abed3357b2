INTRO = """
# Solver-based checking of ciscoconfparse

(This file is written by `tools/design.py`; its prose is in `tools/design_text.py`.)

## Technique

Every property is decided by *symbolic execution of the real Python source* with z3.

* `sx/loader.py` is an import hook. On every run it reads the modules of `/repo/ciscoconfparse` (plus the third-party
  `hier_config` and the standard library's `ipaddress`, which the code under test calls) from the working tree, rewrites
  their AST (`sx/rewrite.py`) so that every operation which could meet a symbolic value goes through `sx/rt.py`, and executes
  the result. Nothing is modelled by hand: parents, regular expressions, edits, address arithmetic are the code in `/repo`.
  `/repo` needs no hooks.
* `sx/core.py` is the path engine. An input is a list of symbolic characters (7-bit), bounded integers, booleans and
  choices. Each data-dependent branch asks for the feasibility of both sides; the harness is re-executed once per feasible
  decision vector until the frontier is empty. A path stands for *all* inputs satisfying its path condition. Predicates
  over one character that no other constraint mentions are decided exactly on a 128-bit set; everything else is a z3
  query. Assertions are z3 queries over the path condition (`unsat` of the negation), and at the end of a path one
  z3 query *certifies* the whole path: path condition and not(assertions) must be unsat, or, when all assertions folded to
  constants, the path condition must be sat (vacuity guard). Every path is certified for the first 300 of each worker,
  then one in eight; the counts are in the evidence.
* `sx/strs.py` symbolic strings (concrete length, symbolic characters), `sx/rx.py` a symbolic regular-expression matcher
  driven by CPython's own `re` parser (`sre_parse`), `sx/fmt.py` formatting, integers are bit-vectors wide enough to be exact
  (Python integers do not wrap). Sets/dicts with symbolic members are modelled by equality; `hash()` of symbolic values is
  a collision-free function of the value, and arithmetic on hashes keeps it so.
* A counterexample is a z3 model. It is replayed on the *uninstrumented* `/repo` in a fresh interpreter (`sx/replay.py`) with
  the same harness; only a counterexample that reproduces is a VIOLATION. An exception escaping the harness or a hang is a
  candidate violation too. Anything that does not reproduce is printed as UNCONFIRMED and in the evidence
  (`unconfirmed_counterexamples`, and `exhaustive` becomes false).
* A sample of explored paths per run is executed on the real code and every observed value compared with the symbolic
  prediction (`traces_validated_against_impl`, `n_trace_mismatches`).

Validation of the translator: the repository's whole test suite (462 functions selected by the baseline) passes when
the package is loaded through the instrumenting loader, and `props/selftest_int.py` checks the integer encoding against
Python.

Strength: bounded, all paths. Each evidence file lists bounds, what lies outside, functions executed, queries, solver
time, and whether the frontier was exhausted. Unbounded claims are not made.

Harnesses are in `props/<id>.py` (symbolic inputs, reference semantics written from the property text, assertions).
`./check <ID> [--tier quick|thorough] [-v]` runs one; `--only TASK` one of its tasks. Quick checks take 3 to 90 s on 8 cores.
`tools/gen.py` writes properties.jsonl and MANIFEST.json from `tools/proplist.py`; `tools/bugs.py` and `tools/mkbug.py` write
`seeded/`; `tools/trybug.sh` runs a planted bug.

Why this reaches what the tests cannot: the tests fix a handful of configurations. Here the texts themselves are
symbolic (every character of every line in C01 and C02, every digit of an address in I01, every ordering of the commands of an
interface in M05), so that a check covers each combination of indentation, content and position that fits in the bound.
For the model classes (M*) symbolic choice selects the kinds of the lines, and symbolic characters and digits their
values; the properties are of the kind 'line X does not influence attribute Y', which no finite list of examples settles.
"""
OUTSIDE = """
## What is outside

* DNS (`dns_query`, `reverse_dns_lookup`), logging and colour output: effects outside of the process have no symbolic encoding
  here. Files are encoded as in-memory text (C18: `open`, `Path`, `os.path.isfile`, `save_as`); encodings and permissions are not.
* Non-ASCII text: characters are 7-bit.
* `CiscoIOSXRInterface` (a placeholder whose every method is abstract) and what `models_iosxr.py` builds on it (`name`, `port`) or
  copies from `models_cisco.py` for commands IOS-XR does not have in that form (switchport, HSRP, PIM, helper addresses).
  `models_all.py` and `ASARouteLine` are not used by the parser.
* The factory raises ValueError for malformed `ip route`, `aaa group server`, ASA `access-list` and `name` commands; the
  properties speak about well-formed ones. `is_intf` of an NX-OS hostname line raises NotImplementedError.
* Schedules and crash points: the library is single-threaded and keeps no state outside of memory.
"""
NOTES = """
False alarms met while building, and what was done: properties which were too strong were narrowed to the documented
behaviour (C13 speaks about lines below the *same* parents, C15 about lines matching `linespec`, M06 about groups with a
virtual address, M08 about 65535 for service groups, M12 about DynamicAddressException for DHCP on NX-OS, which the code
documents). No known finding stands for a false alarm.
"""
STRENGTHEN = """
### Strengthened after a miss

* C02a: stale cache only showed with 5 lines, so the quick size went from 4 to 5. C06a: chains of descendants.
  C11b: `exclude` tasks. C04b: `deep` tasks (statements inside 4, 9 or 16 blocks). C13b: three-level shapes. C12b: a first line
  which is indented. I02b: the longest spellings. I03b: hash arithmetic in the engine. N01: numbers of 5 digits.
* M02b: empty subnet as first of the list. M03a: two `add` lines. M04a: 4-digit subinterface numbers. M05b: both MAC groups on a
  switchport. M06b: group numbers which sort differently as text. M08a: each of the ICMP message names. M08b: log levels. M11b:
  values of one or two words. M14b: distances of 1-3 and tags of 4 digits. C16a: required lines which equal a line up to blanks.
"""
SOUNDNESS = """
### Engine faults found and repaired on the way

Intervals of `abs()` and `bit_length()`; arithmetic on symbolic hashes; missing inputs in a replay; `range()` with
symbolic bounds; comparison of sets and dicts with symbolic members; `__format__` of symbolic values. Each was found by
a trace mismatch or an UNCONFIRMED counterexample and has a case in the translator validation.
"""

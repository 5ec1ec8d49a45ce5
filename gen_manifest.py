#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
LEVEL = {}
CHECKS = {
 'C05': ('query witnesses: match sets and bindings read off monomorphic MIR instances, backward data-flow slices, compile-fail programs, against an independent matching oracle',
         'other', 'Every query of the enumerated and seeded corpus is expanded by the real macros and its instances in the MIR are compared with the oracle; queries outside the corpus are covered only by the uniformity of the generator. Assumes rustc and the oracle.'),
 'C16': ('expansion equivalence of cfg-decorated and hand-erased declarations for every truth assignment, type-level witnesses and MIR match sets',
         'other', 'For every truth assignment of the predicates, decorated and erased items must expand to the same tokens or agree on ids, fields, sizes, match sets and bindings. Assumes rustc cfg evaluation; declarations outside the corpus are not examined.'),
 'C15': ('compile-time witnesses: const assertions and compile-fail programs against an independent id oracle',
         'other', 'Every declaration of the enumerated corpus is expanded by the real macros and its ids are pinned by constants the compiler evaluates; assumes rustc and the oracle fold; declarations outside the corpus are covered only by the uniformity of the generator.'),
 'C18': ('type-level compile-fail witnesses with compiling twins, auto-trait assertions, token scan of generators and expansions',
         'other', 'Each unsound program of the corpus must be rejected while its one-token twin compiles; the generators cannot emit the token unsafe. Assumes rustc; programs outside the corpus are not examined.'),
}
AI = 'abstract interpretation of the monomorphic MIR (linear-relation and ownership/typestate domains, inductive loop summaries, class-invariant assume/guarantee): '
NOTE = ('Modular: every operation is analysed from an arbitrary world satisfying the representation invariant, which every operation must re-establish. '
        'Assumes the in-house interpreter and its models of core/alloc, rustc, and uniformity of the generators over component counts and archetype lists. '
        'Constructs the analysis does not understand are reported as undecided, never as violations.')
ENGINE = {
 'C01': 'handle resolution before/after every operation for an arbitrary handle',
 'C02': 'provenance of every cell behind an arbitrary handle, through every access path',
 'C03': 'undefined-operation and acceptance analysis of every handle-taking operation for arbitrary keys',
 'C04': 'ownership/typestate analysis of component values and heap blocks',
 'C06': 'exact tiling of [0, len) by the client calls of every iteration',
 'C07': 'one generic iteration of every destroying query from an arbitrary intermediate storage',
 'C08': 'freshness and monotonicity of slot generations',
 'C09': 'minting and acceptance of direct handles against archetype-version monotonicity',
 'C10': 'representation invariant, ownership and borrow flags in every unwinding state',
 'C11': 'borrow-flag typestate of every runtime-checked access',
 'C12': 'exact len/capacity accounting and free-list cardinality',
 'C13': 'structural equality, separation and invariant of clones',
 'C14': 'every handle conversion for an arbitrary key',
 'C17': 'effect analysis of the event logs',
 'C19': 'one feature-independent specification checked for every feature/profile configuration',
}
for _k, _t in ENGINE.items():
    CHECKS[_k] = (AI + _t, 'other', NOTE)
NA = {}
ids = ['C%02d' % i for i in range(1, 20)]
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in CHECKS:
        t, l, n = CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'bin/check %s' % i, 'thorough_cmd': 'bin/check %s thorough' % i,
                            'technique': t, 'level': l, 'level_note': n})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'check under construction (static analysis of the MIR, see DESIGN.md)')})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)

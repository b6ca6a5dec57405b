#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json,sys
T={
'P01':'path-sensitive error-flow analysis over SSA',
'P02':'path-sensitive error-flow analysis over SSA',
'P03':'path-sensitive error-flow analysis over SSA',
}
T['P09']='path-sensitive lockset analysis with inferred and confirmed guards, once and atomic discipline'
T['P10']='lock, semaphore, wait-group and condition typestate over SSA; lock-order graph'
T['P14']='case analysis of every conversion over abstract integer intervals'
T['P11']='ownership typestate: every acquired handle is released or handed on, per path and per loop iteration'
T['P04']='typestate of the two output objects and the layers above them along every path of the builder'
T['P05']='typestate and value provenance of file names in the file writer'
T['P06']='ownership typestate of object writers; composition of writer methods over abstract writer states'
T['P07']='typestate of cache buffers (lock, key, fill) with value provenance of keys and fill ranges'
T['P08']='typestate of cache files, locks, pooled buffers and attributes along every path of a cached read and its write-back'
T['P25']='typestate of the eviction loop; provenance of removed paths; effect analysis of the other cache operations'
T['P12']='Path-sensitive dataflow over every positional reader: polynomial identities between requested offset, buffer position and source offset, range facts from branches, and layout of concatenations, slices and cache blocks'
T['P13']='typed scan of every integer operation for width, with value ranges from types, divisions and branch facts for narrowing conversions'
T['P15']='branch-fact dataflow: which response checks dominate the body read, shape of the range header, anchored pattern, and where a size may come from'
T['P16']='typestate of the retry loop: facts known about the last answer, body, response and back-off when an attempt is repeated or returned'
T['P18']='constant propagation of mount flags through wrappers, typestate of device tuning, and opcode facts at every served command'
T['P19']='call-graph reachability from every reading command to every creating, overwriting or removing operation, with provenance of exempt paths'
T['P17']='identity of context keys, pairing of setters and getters, and taint from getters to the client each driver operation uses'
T['P24']='Typestate analysis of the mounted filesystem operations: reference counts, table insertions and deletions and handles tracked along every path, with lock sessions'
T['P26']='Typestate analysis of the worker pool goroutines with every select followed case by case: take, buffer, handle, answer, done; count, hand over, wait, close; register, deregister, shut down'
T['P20']='Path-sensitive extraction of the sequence of fields each encoder writes and each decoder reads (width, byte order, source of the value), compared with tables restating ECMA-119, SUSP and RRIP'
T['P21']='Sums of the widths written along every path compared with the length method under the same path facts; bounds of the texts entries are made of; alignment typestate of the areas of the image'
T['P22']='typestate over the directory insertion: every change must be dominated by the tests of the name and the failed lookup of the same key; value tracking of identifier, name and entry into the listing; constant tables compared with the documented sets'
T['P27']='interprocedural effect analysis over SSA with points-to labels rooted at the object read, must-held locksets, onces and stream positions'
T['P29']='path-sensitive analysis of the driver dispatch, the registry, each driver\'s URL parser, the option switches and decoders and the command switch: facts taken on each path, set of constants handled against the set declared in the struct tag or registered'
T['P30']='path-sensitive value-flow analysis of the entry iterator (each attribute against the record field or system use entry it must come from, on every path), of the accessors, and of the values stored into the answers of the mounted filesystem'
T['P28']='path-sensitive typestate analysis of each traversal: one element at a time, how often handed out and taken up, with value terms for its path; slice aliasing rule; error propagation'
T['P23']='path-sensitive value tracking from object sizes and addresses into the index entries and back through loading; inductive checks of the loops that place extents, spell and list URLs; widths of products'
NA={}
exec(open('/verif/tools/techniques.py').read())
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m={'version':1,'setup_cmd':'bash setup.sh','checks':[],'not_applicable':[],
 'hooks':{'guard':'none (no instrumentation in /repo)','enable':'nothing to enable','source_commits':[]},
 'notes':'All checks are static: the analyzer in /verif/sa loads, type-checks and builds SSA for the current source of /repo on every run. Nothing of /repo is executed.'}
for p in props:
    if p in T:
        t=T[p]; note=NOTE.get(p,'Decides the stated rules for every instance found in the source; see DESIGN.md for what each rule does not cover.')
        m['checks'].append(dict(property=p,quick_cmd='./run.sh %s quick'%p,thorough_cmd='./run.sh %s thorough'%p,
          technique='static analysis: '+t,level='proof' if p=='P14' else 'other',level_note=note))
    else:
        m['not_applicable'].append(dict(property=p,reason=NA.get(p,'check not written yet')))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); print(len(m['checks']),'checks')

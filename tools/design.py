#!/usr/bin/env python3
"""Writes DESIGN.md: fixed text below, rules from a fresh run of the analyzer, planted bugs from seeded/."""
import json,glob,os,subprocess,tempfile,shutil
V='/verif/'
ev=tempfile.mkdtemp()
subprocess.run(['/tmp/sa','-prop','all','-evidence',ev],capture_output=True)
props=[json.loads(l) for l in open(V+'properties.jsonl')]
seeds={}
for f in sorted(glob.glob(V+'seeded/*/meta.json')):
    d=json.load(open(f)); seeds.setdefault(d['property'],[]).append((f.split('/')[-2],d))
# what is analysed / what decides / what is not covered
D={}
def d(p,what,oracle,notcov): D[p]=(what,oracle,notcov)
d('P01','Every function reachable from building a volume and from the burn command. Each call with an error result is one obligation; the function is followed along the paths on which that result is not nil.','On such a path every return must report an error that is that one, is derived from it, or is certainly not nil; the process may end instead. Functions without an error result must hand the error on (argument, channel, field). Iterators that report their end must be asked for their error.','Which error is reported. Errors of closing what was only read, of writes into hashes, in-memory buffers, the terminal and the logger are not obligations (list at the top of `sa/errprop.go`). Failures that a callee does not report as an error.')
d('P02','Every function of the read side: loader, extents, walker, directory and record iterators, decoders, caches, FUSE server, block device, all reading commands.','As P01. A particular error may be an ordinary outcome only where the table `errTols` names package, callee, condition and number of sites (for example end of data while a record may start, a block not yet in the cache); on those paths the named condition must have been established.','As P01. End of data in the middle of a record is an error by the rule that only the named read may see it.')
d('P03','Every function of the drivers, the HTTP transports, the signer, the S3 utilities, the visitor.','As P01. In addition (status) every function that asks a server and reports only success or failure must have found the status to be 2xx on each path that reports success. Removing a file is an obligation in the local driver (elsewhere it is clean-up).','Errors inside third-party libraries. The rest of a body that is read only to be thrown away after the status was checked.')
d('P04','The builder and the layers (buffers, compressor, encoder) it puts on the two output objects.','Typestate per output object: created, written, layers flushed after the last write, committed. The index may be committed only after the metadata was; success needs both; the URL returned is the one the commit of the index gave.','What the stores do inside a commit (P05, P06).')
d('P05','The local file writer: creation, write, commit, abort.','Provenance of file names: the temporary file is made in the directory of the final name; the final name appears only as the target of the rename of the temporary file; the rename comes after a successful sync and before success is reported.','Syncing the directory after the rename (the property does not ask for it). Behaviour of the filesystem.')
d('P06','Every caller of a function that opens an object for writing; every writer type; the background upload; the multipart uploader.','Ownership typestate for callers. For writers the methods are composed over abstract writer states: abort then commit, failed commit then commit, failed upload then commit. A write must hand on exactly its argument and report what was handed on; a commit of a buffering writer must store the whole buffer.','Uploads by other processes; what the object store does.')
d('P07','The memory cache: pool, buffers, slices, fill functions.','Typestate of a buffer (lock held, key equal or just filled for it, number of bytes filled), provenance of the key (URL, offset, length) and of the range the fill reads.','Objects whose content changes under one URL.')
d('P08','Reading through the disk cache, the write-back goroutine, the integrity check.','Typestate of cache file, lock, pooled buffer and attributes along each path: read only after equal keys; commit only with the lock, a complete read, a complete write and both attributes.','The lock implementation of the operating system; someone else writing in the cache directory.')
d('P09','Every struct and package variable that is reachable from more than one goroutine (inferred from what is locked somewhere, what goroutines and request handlers touch, what is written after publication).','Lock sets along each path, through same-package helpers; once-initialisation and atomic fields as separate disciplines; no lock is copied; variables shared with a goroutine are touched only after waiting for it.','State of third-party types. Publication through channels is taken as synchronisation.')
d('P10','Every lock, semaphore, wait group, condition and file lock of the module.','Balance along each path including panics and early returns, ownership of slots passed to goroutines, order graph of nested acquisitions without cycle, signals after changes of awaited state.','Deadlocks over channels other than those P26 and P28 cover.')
d('P11','Every call that returns something to close (files, objects, responses, mappings, devices, locks).','Ownership typestate: closed, returned, stored in something longer-lived whose own Close closes it, or handed to a goroutine, on every path and in each loop turn.','Double closes; what happens inside a library\'s Close.')
d('P12','Every positional and sequential reader that passes a request on to other readers.','Linear forms: the source offset minus the requested offset equals the buffer position plus the place of the part, as an identity of terms; ranges from branch facts; the part visited first is the one holding the last byte asked for.','Sources that deliver other bytes than they should. Concatenations as a whole are decided by the identities per part and the layout rule, not by enumeration of sizes.')
d('P13','Every integer operation of the image, index and reader packages.','Types of the operands of products, sums and shifts that become positions or lengths; value ranges from types, divisions, constants and branch facts for each narrowing conversion; running totals must be tested for wrapping.','Sizes of single directories (written to memory first, so far below 2^32).')
d('P14','Every conversion function of the checked-conversion package.','All 2^n argument values as intervals: guards split the interval, the conversion must be the identity on what reaches it and what reaches the panic must be exactly the values that do not fit. This is complete.','Nothing of the statement.')
d('P15','The HTTP object, the content-range parser, the size query.','Facts known about the response at the point where the body is read: status 206, first and last byte, length, total; the asked range as a term; the pattern is anchored; a short body is an error.','Servers that send wrong bytes with right headers.')
d('P16','The retrying transport.','Facts about the last attempt at each repetition and each return: transport error or transient status, back-off still running, context alive, body renewed, previous response closed.','The distribution of back-off times.')
d('P17','Context keys, setters, getters, client construction and every driver operation.','Identity and privacy of key types, pairing of setter and getter, taint from every getter to the client an operation uses.','Credentials found by a cloud library itself.')
d('P18','All mount system calls, the FUSE configuration, device tuning, the command switch, the filesystem operations that are implemented.','Constant propagation of flags through wrappers; tuning precedes mounting; no opcode that writes is served; no operation that writes is overridden.','The mount command goes on when tuning fails (it logs the error); the statement is worded accordingly.')
d('P19','The call graph from every command.','No chain from a reading command to a creating, overwriting or removing operation, except cache files, the named output file and temporary files, recognised by where their path comes from.','Writes by tools other than this module.')
d('P20','Every encoder and decoder of the image format.','Sequence of (width, byte order, source field) extracted per path and compared with tables restating ECMA-119, SUSP and RRIP; dates and texts by position; order of the areas of the fixed part.','Fields the module always leaves at zero are only checked for width. The tables are mine.')
d('P21','Length methods and encoders of each record; areas and rounding of the image.','Sum of widths written along a path equals the length method under the same facts; bounds of what fits a length byte; alignment typestate.','Parts shared by several records of one file.')
d('P22','Insertion into directories, path handling, validators, identifiers, the listing.','Every change of a directory is dominated by all tests of the name and the failed lookup of the same key.','Intermediate directories that stay behind when the last part of a path is refused.')
d('P23','Address assignment, extents, index construction and loading, extent URLs and sizes.','Terms carried from object sizes to index entries and back; loops that place extents are checked inductively (one turn from an arbitrary position).','Index files written by others with other content.')
d('P24','The mounted filesystem operations.','Reference counts, tables and handles along each path, in sessions of the lock.','The kernel.')
d('P25','The eviction loop, its iterator, the thresholds.','What is removed was handed out by the iterator; statistics are taken again after each removal; only block directories and block files are handed out.','Accuracy of filesystem statistics.')
d('P26','The worker pool of the block device.','Each select followed case by case: take, buffer, handle, answer, done; registration, shutdown and closing order.','Panics of a handler (the process ends).')
d('P27','Every positional reader and everything it reaches.','Effects on memory reachable from the object; allowed under a lock, once or atomically; no use of the sequential position.','Third-party readers are known by a table of names.')
d('P28','Walker, visitors, listings, bucket pages.','One element at a time: handed out once under its own path, taken up once if a directory; slice aliasing rule for paths kept for later; error propagation.','Order of visits where the interface leaves it open.')
d('P29','Driver dispatch, registry, URL parsers, option switches and decoders, command switch.','Facts on each path; the set of constants handled equals the set declared or registered.','Options whose values are open (paths, sizes).')
d('P30','The directory entry iterator with its helpers, the decoder of link targets, the accessors of an entry, every store into an attribute, entry, listing or link answer of the mounted filesystem.','On each path that reports an entry every attribute is the value of the record field or system use entry of that name (or its default if there is none); continuation records have the same identifier and add their length; each part of a link target is put down once, as its flags say, and the last one ends it; each answer comes from the accessor of the same name, all of one entry.','The layout of the system use entries (P20, P21) and the joining of names (P22); how a link target is split when it is recorded; the permission bits of the defaults.')
T={}
src=open(V+'tools/manifest.py').read()
env={}; exec(src[:src.index("props=[")].replace("exec(open('/verif/tools/techniques.py').read())",''),env); T=env['T']
o=[]
w=o.append
w(open(V+'tools/design_head.md').read().rstrip()+'\n')
w('## Properties\n')
for p in props:
    i=p['id']; e=json.load(open(ev+'/'+i+'.json')); c=e['coverage']
    w('### %s %s\n'%(i,p['title']))
    w('*Technique.* %s.\n'%T[i].rstrip('.'))
    w('*Analysed.* %s'%D[i][0]+'\n')
    w('*What decides.* %s\n'%D[i][1])
    w('*Rules* (instances now): '+'; '.join('`%s` (%d) %s'%(r,c['obligations_by_rule'].get(r,0),t) for r,t in sorted(c['rules'].items()))+'.\n')
    w('*Cost.* %d functions, %d abstract states, %.1f s after loading.\n'%(c['functions_analysed'],c['abstract_states'],e['wall_s']))
    w('*Why tests do not reach it.* %s\n'%p['why_tests_cant'])
    w('*Not covered.* %s\n'%D[i][2])
    if i in seeds: w('*Planted.* '+'; '.join('%s: %s'%(n,m['what_it_breaks']) for n,m in seeds[i])+'.\n')
w(open(V+'tools/design_tail.md').read())
open(V+'DESIGN.md','w').write('\n'.join(o))
shutil.rmtree(ev)

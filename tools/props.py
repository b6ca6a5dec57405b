#!/usr/bin/env python3
# Source of properties.jsonl. Run: python3 tools/props.py > properties.jsonl
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","A burn never reports success after one of its steps failed",
  "While a disc is being burned, every failed step (adding an entry, laying out or writing image metadata, flushing, closing a compressor, building or encoding the index, creating or committing an output object) makes the whole burn fail. No error on the write path is dropped, overwritten by a later success, or shadowed, so the command and the builder API return success only when every step succeeded.",
  ["inputs","fault_sequences"],"for every step of a burn that can return an error, and every position at which it can fail",
  "Each failing step needs its own injected fault (a full disk after N bytes, a refusing remote store, a codec error); there are over a hundred such call sites and the suite injects none of them.",
  ["pkg/vdisc/builder.go","pkg/vdisc/cli/burn.go","pkg/iso9660/volume.go","pkg/iso9660/directoryinode.go","pkg/iso9660/directoryrecord.go","pkg/iso9660/pvd.go"],
  [("image builder","pkg/vdisc/builder.go"),("metadata writer","pkg/iso9660/volume.go:WriteMetadataTo")])
p("P02","A failed read is never reported as success or as end of data",
  "When loading, listing, walking, mounting, inspecting, copying or caching a disc, an error from any underlying operation reaches the caller as an error (or is logged where the interface cannot return one, or ends the process). It is never turned into success or an ordinary end of data, and an iterator that stops because of an error always makes that error available and its users look at it.",
  ["inputs","fault_sequences"],"for every error-returning operation on the read path, and every point of every loop or callback at which it can fail",
  "Read errors appear only with truncated images, failing transports or corrupted directory blocks at particular offsets; tests read intact images from memory.",
  ["pkg/iso9660/walk.go","pkg/iso9660/file.go","pkg/iso9660/directory.go","pkg/vdisc/loader.go","pkg/caching/disk.go","pkg/caching/mem.go","pkg/isofuse/dir.go","pkg/storage/concat.go","pkg/vdisc/cli/ls.go"],
  [("path walker and directory iterators","pkg/iso9660/walk.go"),("disc loader","pkg/vdisc/loader.go")])
p("P03","Storage drivers and transports report every failed operation",
  "Every storage driver (local files, HTTP, S3, Swift, in-memory, data URLs), the HTTP transports, the request signer, the multipart uploader and the tree visitor report a failed underlying operation to their caller as an error. A failure in a request body, a part upload, a listing page, a seek, an extended-attribute write or a background worker is never dropped, overwritten or reported as success. An HTTP answer counts as success only after its status was found to be one of success.",
  ["fault_sequences","inputs"],"for every error-returning call inside drivers, transports, signer, uploader and visitor, and every outcome of it",
  "The remote drivers have no tests because they need servers that fail at chosen moments; the local ones are tested only on success paths.",
  ["pkg/storage/storage.go","pkg/storage/s3/writer.go","pkg/storage/http/object.go","pkg/storage/swift/swift.go","pkg/storage/file/writer.go","pkg/storage/driver/visitor.go","pkg/s3util/uploader.go","pkg/s3util/signer.go","pkg/s3util/listbucket.go","pkg/httputil/rr.go"],
  [("multipart uploader","pkg/s3util/uploader.go"),("tree visitor","pkg/storage/driver/visitor.go")])
p("P04","A burn publishes the disc index last, after complete image metadata",
  "The disc index object is committed only after the image metadata object was completely written, its buffers flushed and it was committed successfully, and after the compressed index stream itself was closed. A burn reports success only if both objects were committed, and the location it returns is that of the committed index.",
  ["fault_sequences","crash_points"],"for every path through a burn, including every failing step and every early return",
  "A test sees only the final objects; a wrong order or a missing flush shows only if the process fails between two particular steps, or for data sizes that leave bytes buffered.",
  ["pkg/vdisc/builder.go"],[("two-object publication","pkg/vdisc/builder.go:Build")])
p("P05","Writing a local file object is atomic and durable",
  "A local file object appears under its final name only by renaming a completely written and synced temporary file created in the same directory. Until a commit succeeds, and after an abort, no operation of the writer creates, truncates, writes or removes the final name.",
  ["crash_points","histories"],"for every sequence of create, write, commit and abort calls and every crash point in between",
  "Atomicity and durability show only when the machine stops between two system calls or when the temporary directory is on another filesystem.",
  ["pkg/storage/file/file.go","pkg/storage/file/writer.go"],[("temp file plus rename","pkg/storage/file/writer.go:Commit")])
p("P06","Object writers are always finished and a commit covers all data",
  "Everything that opens an object for writing either commits or aborts it on every path, including every failure path. A commit reports success only after all accepted data was handed to the store and any background upload has finished without error; after a failed upload or an abort, it reports failure and publishes nothing.",
  ["histories","schedules","fault_sequences"],"for every interleaving of writes, background upload and commit/abort, and every failing step",
  "Leaked or half-finished uploads need failures at chosen steps; a commit overtaking its upload goroutine needs a rare schedule.",
  ["pkg/storage/s3/writer.go","pkg/storage/driver/writer.go","pkg/storage/ram/writer.go","pkg/storage/data/writer.go","pkg/storage/file/writer.go","pkg/vdisc/builder.go","pkg/caching/disk.go","pkg/s3util/uploader.go"],
  [("piped upload","pkg/storage/s3/writer.go"),("writer users","pkg/vdisc/builder.go, pkg/caching/disk.go")])
p("P07","The memory cache serves only bytes it read for that exact block",
  "A read through the memory cache copies bytes from a cache buffer only while holding that buffer's lock and only after the buffer was found to hold, or was just filled with, the requested block of the requested object. A fill that fails leaves the buffer marked as holding nothing, and only as many bytes as were really read are served.",
  ["schedules","fault_sequences"],"for every interleaving of concurrent readers, read-ahead and eviction, and every failing fill",
  "Serving a recycled or half-filled buffer needs eviction or a failed fill exactly between a reader's lookup and its copy.",
  ["pkg/caching/mem.go"],[("buffer pool and per-buffer key","pkg/caching/mem.go")])
p("P08","The disk cache serves and publishes only complete, keyed blocks",
  "A block is read from the disk cache only if the key recorded with the cached file equals the key of the requested block. A cache file is committed only by the holder of that block's lock, after the whole block was read from the source and completely written and both its key and its checksum were recorded; otherwise it is discarded and the source data is still served.",
  ["schedules","fault_sequences","crash_points"],"for every interleaving of processes sharing a cache directory, every hash collision and every failing or short write",
  "Needs hash collisions, several processes racing on a block, or writes failing in the background goroutine after the read already returned.",
  ["pkg/caching/disk.go"],[("lock, fill, publish","pkg/caching/disk.go:fill")])
p("P09","Shared mutable state is accessed only under its lock",
  "State shared between concurrent requests (inode and handle tables, cache pools, read-ahead windows, transport tables, region caches, in-memory filesystems, driver registry, multipart progress) is read and written only while the lock that protects it is held, with the exclusive lock held for every write. Fields accessed atomically are never also accessed plainly.",
  ["schedules"],"for every pair of concurrent operations on the same object and every interleaving",
  "A data race needs two goroutines in a window of nanoseconds; the suite runs most of these types from one goroutine or not at all.",
  ["pkg/caching/mem.go","pkg/caching/readahead.go","pkg/httputil/rr.go","pkg/isofuse/isofs.go","pkg/isofuse/dir.go","pkg/isofuse/file.go","pkg/storage/driver/driver.go","pkg/storage/ram/ram.go","pkg/storage/s3/region.go","pkg/s3util/uploader.go"],
  [("mutexes and the fields they guard","pkg/*/")])
p("P10","Locks, semaphore slots and wait groups are always released, in one order",
  "On every path, including error returns, every acquired mutex, file lock and semaphore slot is released exactly once, and every goroutine counted by a wait group signals it exactly once and is counted before it starts. No code acquires a lock it already holds, and the order in which different locks are acquired is acyclic.",
  ["schedules","fault_sequences"],"for every path through every function that acquires a lock, slot or wait-group count, and every set of concurrent callers",
  "A lock kept on a rare error path or an inverted order hangs only in combinations of failure and schedule that tests do not produce.",
  ["pkg/caching/disk.go","pkg/caching/mem.go","pkg/caching/readahead.go","pkg/blockdev/cmdpool.go","pkg/storage/concat.go","pkg/storage/file/lock.go","pkg/storage/s3/writer.go","pkg/storage/driver/visitor.go","pkg/isofuse/dir.go","pkg/httputil/rr.go","pkg/s3util/uploader.go"],
  [("lock/unlock pairing","pkg/*/")])
p("P11","Opened objects, responses and mappings are released on every path",
  "Every object, file, HTTP response body and memory mapping opened by the library is closed on every path where it is not handed to the caller, including when a later step fails. This holds for each iteration of loops that open one per iteration, and for repeated requests.",
  ["fault_sequences","inputs"],"for every open operation and every path leaving the function that owns the handle",
  "A leaked descriptor or connection is invisible until thousands of failing operations exhaust a limit.",
  ["pkg/vdisc/loader.go","pkg/vdisc/builder.go","pkg/vdisc/extent.go","pkg/caching/disk.go","pkg/storage/file/file.go","pkg/storage/http/object.go","pkg/storage/http/finfo.go","pkg/storage/http/delete.go","pkg/s3util/listbucket.go","pkg/httputil/retry.go","pkg/kmod"],
  [("handle ownership","pkg/*/")])
p("P12","Composed readers map every byte to the right source position",
  "Reading n bytes at offset x of a concatenation, slice, file extent or cached object takes each byte from exactly the position x+k of the composed data, places it at position k of the caller's buffer, and never asks a source for bytes outside its own range. Reads are clamped to the end of the object, and a read at or past the end reports end of data.",
  ["inputs"],"for every offset, length, block size and partition of the composed object",
  "Offset arithmetic errors show only at particular alignments of request, part boundary and end of object.",
  ["pkg/storage/concat.go","pkg/storage/storage.go","pkg/caching/cache.go","pkg/caching/mem.go","pkg/caching/disk.go","pkg/interval/interval.go","pkg/vdisc/extent.go","pkg/iso9660/file.go"],
  [("offset translation","pkg/storage/concat.go:ReadAt")])
p("P13","Byte offsets and sizes are computed without 32-bit overflow",
  "Wherever a block number, block count or record field is turned into a byte offset or byte length, the multiplication or addition is done in 64-bit arithmetic. A 64-bit size is narrowed to a 32-bit or 16-bit type only where it is known to fit or through a conversion that refuses values that do not, and a running total of blocks never wraps around unnoticed.",
  ["inputs"],"for all discs and files, in particular those beyond 2 GiB and 4 GiB",
  "Overflow needs images larger than 4 GiB; tests use images of a few kilobytes.",
  ["pkg/iso9660/walk.go","pkg/iso9660/file.go","pkg/iso9660/volume.go","pkg/iso9660/sectorallocator.go","pkg/vdisc/loader.go","pkg/vdisc/extent.go","pkg/vdisc/builder.go","pkg/caching/cache.go"],
  [("address arithmetic","pkg/iso9660/walk.go")])
p("P14","Checked integer conversions are exact or panic",
  "Every checked conversion returns exactly its argument's value when that value is representable in the result type, and panics for every other argument. It never returns a different value and never panics for a representable one.",
  ["inputs"],"for every conversion function and all 2^8 to 2^64 argument values, on 32-bit and 64-bit platforms",
  "The argument space cannot be enumerated for 64-bit types, and there are no tests for this package.",
  ["pkg/safecast"],[("range guards","pkg/safecast")])
p("P15","Remote range reads accept only exactly the requested bytes",
  "A ranged read of a remote object succeeds only if the server answered with a partial-content status and a well-formed content range that starts at the requested offset, ends at the requested end and is consistent with the object's size and the response length, and the full body arrived. Any other response yields an error, and a refused response leaves the caller's buffer untouched; the size of a remote object is taken only from a successful answer.",
  ["inputs","fault_sequences"],"for every response a server or proxy can send to a range request",
  "Needs a server that ignores ranges, shifts them, truncates bodies or changes the object between requests.",
  ["pkg/storage/http/object.go","pkg/httputil/range.go"],[("range validation","pkg/storage/http/object.go:ReadAt")])
p("P16","Requests are retried only on transient failures, with an intact body",
  "The retrying transport repeats a request only after a transport error, a server error (5xx) or a too-many-requests answer, gives up after a bounded time, and returns every other response unchanged. It never returns an error together with success, never repeats a request whose body was already consumed without renewing the body, and closes every response it discards.",
  ["fault_sequences","schedules"],"for every sequence of transport errors and status codes",
  "Needs scripted servers and minutes of back-off time.",
  ["pkg/httputil/retry.go"],[("retry predicate","pkg/httputil/retry.go")])
p("P17","Per-request settings in a context are isolated and reach every operation",
  "A timeout, credential, region or authorization attached to a context by one setter is returned by the matching getter and by no other, and setting one never replaces another. Every driver operation that takes a context (open, stat, list, create, remove) builds its client from the settings of the context it was given, except that creating an object is not limited by the timeout.",
  ["configurations","histories"],"for every combination and order of settings put into a context, every driver and every operation",
  "Needs real remote stores with several accounts; wrong use is silent because the default credentials also work.",
  ["pkg/storage/http/context.go","pkg/storage/http/http.go","pkg/storage/s3/context.go","pkg/storage/s3/s3.go","pkg/storage/swift/context.go","pkg/storage/swift/swift.go"],
  [("context keys","pkg/storage/*/context.go")])
p("P18","Discs are exported read-only",
  "A disc is only ever mounted with read-only flags, the block device is tuned before it is mounted, and no handler serves a command or filesystem operation that would write. Tuning a device switches it to read-only and returns an error if that fails.",
  ["inputs","configurations"],"for every mount mode and every command or operation a client can send",
  "Needs kernel modules, FUSE and root; a write request is not part of any test.",
  ["pkg/blockdev/cmd_handler.go","pkg/blockdev/tune.go","pkg/vdisc/cli/mount_linux.go","pkg/isofuse/server.go","pkg/isofuse/isofs.go"],
  [("mount flags, SCSI dispatch","pkg/vdisc/cli/mount_linux.go, pkg/blockdev/cmd_handler.go")])
p("P19","Commands that only read never modify stored objects",
  "Listing, walking, inspecting, copying out, mounting and checking a disc never create, overwrite or remove an object in storage, apart from files of the local block cache, the named output file and private temporary files. Only burning and cache eviction reach an operation that writes or deletes stored objects.",
  ["programs","inputs"],"for every call chain from every read-only entry point",
  "A test observes particular runs; the guarantee is about the absence of any call chain.",
  ["pkg/vdisc/cli","pkg/vdisc/loader.go","pkg/vdisc/extent.go","pkg/iso9660","pkg/isofuse","pkg/caching"],
  [("effects of read commands","pkg/vdisc/cli")])
p("P20","On-disc structures follow the standard's field layout",
  "Every structure written into an image (primary volume descriptor, terminator, directory record, path table record, timestamps, SUSP and Rock Ridge entries) has the field order, widths, byte orders, signatures and versions the standards prescribe, and both-endian fields carry the same value twice. Readers take each field from the same position with the same width and byte order, numbers of path-table parents count from one and UTC times carry a zero zone offset. The system area, the descriptors and the two path tables follow one another where the descriptor says, each table in its own byte order and with the directories' final addresses.",
  ["inputs"],"for every value of every field of every structure",
  "Reader and writer tests agree with each other even if both are wrong, and rarely used fields hold zeros in tests.",
  ["pkg/iso9660/pvd.go","pkg/iso9660/directoryrecord.go","pkg/iso9660/pathtable.go","pkg/iso9660/terminator.go","pkg/iso9660/datetime","pkg/iso9660/rrip","pkg/iso9660/susp"],
  [("encoders and decoders","pkg/iso9660")])
p("P21","Announced record lengths equal the bytes written",
  "The length a directory record, path-table record or system-use entry announces (in its length field and through its length method, which the layout relies on) equals the number of bytes writing it produces, for every combination of optional fields and name lengths. Directories never let a record cross a sector boundary, and metadata is padded to whole sectors.",
  ["inputs"],"for every name, flag combination, optional timestamp and symlink target",
  "A mismatch shows only for particular parities of name length or combinations of optional fields.",
  ["pkg/iso9660/directory.go","pkg/iso9660/directoryrecord.go","pkg/iso9660/pathtable.go","pkg/iso9660/rrip","pkg/iso9660/susp","pkg/iso9660/volume.go"],
  [("length methods","pkg/iso9660/directoryrecord.go:Len")])
p("P22","A directory never gets two entries with one name or an unusable name",
  "Adding an entry succeeds only with a non-empty name that is not a dot or dot-dot entry, passes name validation and is not yet present in that directory; otherwise the directory is left unchanged and an error is returned. An added entry is found again under exactly the name it was added with.",
  ["inputs","histories"],"for every sequence of additions and every name",
  "Needs adversarial names and collisions after name mapping.",
  ["pkg/iso9660/directoryinode.go","pkg/iso9660/identifier.go","pkg/iso9660/rrip/validator.go","pkg/iso9660/namevalidator.go"],
  [("child insertion","pkg/iso9660/directoryinode.go:AddChild")])
p("P23","The disc index addresses exactly the blocks laid out in the image",
  "The index gives the image metadata the first extent and every file one extent, in the order the layout assigned their addresses, with block counts and padding that multiply out to exactly the object's size and a URL that resolves to that file's object. Opening an extent reads from that URL with that size, and the loaded disc places each extent where the previous one ended.",
  ["inputs"],"for every set of files, sizes and (possibly equal) URLs",
  "Swapped or shifted extents need particular orders, multi-gigabyte or equal-URL files to show.",
  ["pkg/vdisc/builder.go","pkg/vdisc/loader.go","pkg/vdisc/extent.go","pkg/vdisc/trie.go","pkg/iso9660/volume.go"],
  [("extent table","pkg/vdisc/builder.go:Build, pkg/vdisc/loader.go:Load")])
p("P24","Mounted inodes and handles live exactly as long as the kernel refers to them",
  "Every successful lookup adds exactly one reference to the inode it returns and a forget removes exactly as many as it names, deleting the inode only when none remain; the root is never deleted. Every opened file gets a handle no other open file has, which stays valid until it is released once; using an unknown inode or handle yields an error and releasing one never crashes.",
  ["histories","schedules"],"for every sequence and interleaving of lookup, forget, open, read and release requests",
  "Reference-count drift appears only over long histories under memory pressure in a real kernel mount.",
  ["pkg/isofuse/isofs.go","pkg/isofuse/dir.go","pkg/isofuse/file.go"],[("inode table and handle table","pkg/isofuse")])
p("P25","Cache eviction removes only cache blocks and only while space is needed",
  "Cache garbage collection removes an entry only after finding, for current filesystem statistics, that the threshold demands it, stops as soon as it does not, and removes nothing but regular cache-block files inside the cache directory (no lock files, temporary files or directories). The integrity check removes nothing.",
  ["histories","inputs"],"for every directory content, threshold and sequence of filesystem statistics",
  "Needs a filesystem near its limits and concurrent writers.",
  ["pkg/caching/disk.go","pkg/vdisc/cli/cache.go"],[("eviction loop","pkg/caching/disk.go:Gc")])
p("P26","Every block-device command gets exactly one answer and shutdown loses none",
  "Until the pool is shut down, each command taken from the device is answered exactly once on the response queue, with the outcome of handling that same command, and its buffer is not reused by another command before it is answered. The response queue is closed only after all accepted commands were answered, nothing is sent on a closed queue, and shutting down waits for all workers.",
  ["schedules","histories"],"for every interleaving of workers, arriving commands and shutdown",
  "Needs the kernel target module; losing or duplicating an answer needs shutdown to race with a command.",
  ["pkg/blockdev/cmdpool.go","pkg/blockdev/tcmu.go"],[("worker pool","pkg/blockdev/cmdpool.go")])
p("P27","Positional reads are independent of each other",
  "Reading at an explicit offset never changes the object's sequential position or any other state that a concurrent positional read of the same object depends on, except inside a lock. The result depends only on offset, length and contents.",
  ["schedules","histories"],"for every object type offering positional reads and all concurrent readers",
  "Interference needs two overlapping positional reads on one handle; tests read sequentially.",
  ["pkg/storage","pkg/caching","pkg/vdisc/extent.go","pkg/iso9660/file.go"],[("positional read methods","pkg/storage, pkg/caching")])
p("P28","Traversals visit every entry under its own path and report failures",
  "A walk, visit or listing hands every entry to its callback once, under the path it belongs to (for a disc walk, that of the directory holding it), continues through every page and subdirectory, stops when the callback fails and then returns that failure. No entry's path is altered later by the traversal of another entry, and a traversal that could not list a directory does not report success.",
  ["inputs","schedules","fault_sequences"],"for every tree shape, page size, fan-out and failing callback",
  "Shared-buffer aliasing needs particular slice capacities and tree shapes; paging needs thousands of entries.",
  ["pkg/iso9660/walk.go","pkg/iso9660/directoryinode.go","pkg/storage/driver/visitor.go","pkg/s3util/listbucket.go","pkg/storage/swift/swift.go"],
  [("walker, visitor, pagination","pkg/iso9660/walk.go, pkg/storage/driver/visitor.go")])
p("P29","Unsupported operations and unknown options fail",
  "Asking for an operation a storage driver does not implement, for a URL scheme that no driver serves or that is not the driver's own, or for an unknown value of a command line mode or option fails; it never silently does nothing, falls back to another behaviour or reports success. A supported operation is carried out by the URL's own driver with the arguments given, and a mode leads to the behaviour it names. A block device command that is not supported is answered as not handled, and a disc is mounted through the kernel read-only as the filesystem type it declares.",
  ["inputs","configurations"],"for every scheme, driver, operation, mode and option value and block device command",
  "The combinations of driver and missing capability and the space of unknown values are open-ended.",
  ["pkg/storage/storage.go","pkg/storage/driver/registry.go","pkg/vdisc/cli","pkg/blockdev/cmd_handler.go","cmd/vdisc/main.go"],
  [("dispatch on capability or value","pkg/storage/storage.go")])
p("P30","Entries are reported with the attributes recorded for them",
  "Every entry read from a directory of a disc carries the name, start address, directory flag, permissions, link count, owner, inode number, modification time and link target recorded in its own record and system use entries, and defaults for those not recorded. Records are taken for one entry only if they carry the same identifier; its size is then the sum of their lengths, and that of a symbolic link the length of its target. A mounted disc answers attribute, lookup, listing and link requests with these values of the entry asked for, and lists every entry as the type it has.",
  ["inputs"],"for every directory record and combination of recorded attributes",
  "Attributes that are equal or default in test images (owner and group, inode and address, one record per file) hide a mixed-up field; files of several records exceed four gigabytes and the mount needs a kernel.",
  ["pkg/iso9660/walk.go","pkg/iso9660/fileinfo.go","pkg/isofuse/dir.go","pkg/isofuse/isofuse.go"],
  [("entry construction and its accessors","pkg/iso9660/walk.go, pkg/iso9660/fileinfo.go"),("attribute answers","pkg/isofuse/dir.go")])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(json.dumps(x))

#!/usr/bin/env python3
"""Adds the repaired defects to known_findings.json (one entry per fix commit)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """
C07 4655fa9 a point selector on an index value ending in 0xFF selected the wrong range (carry not propagated in keySuccessor)
C02 796a3b4 OrderBytes in descending mode changed the bytes of the caller
C05 6e3a7f8 of several rows with one primary key in a call an arbitrary one was kept
C05 3e344b1 fields of the previously read row leaked into the next one
C06 bc97e60 upserts of repeated keys used the wrong rows and left stale index entries
C05 438ef66 keys repeated across the rounds of a large insert, update or upsert were not detected
C25 a562969 a rejected AddIndex left the table locked or half updated
C07 c1ae4de iterating an index with a nil batch panicked
C15 ab217d8 closing a batch ran the committed callbacks instead of the close callbacks
C13 51f009e a batch that failed to apply was committed all the same
C16 0068365 sequence numbers repeated when the clock went back
C14 80f3796 closing an iterator that could not be opened hid the error or panicked
C14 c93c91a multi iterators dropped the error of a failed child and panicked on empty lists
C14 3e3039d intersections hid iteration errors
C14 f602058 failed reads were taken for missing records
C22 7b0bf65 index scans depended on how often the callback read the row
C19 94672e8 reindexing index 255 kept old entries, and reindexing hid failed reads
C22 e720fa6 the untyped scanner dropped the batch in ScanForEach and ScanIndexForEach
C20 a7dd7c4 Dump leaked an iterator
C20 c1fca52 Dump returned before its writers were done and hid failed reads
C20 50f360e Restore took directories of other tables
C21 a64981f a failed Open kept the database locked
C18 9f36597 concurrent adds to the bloom filter lost keys
C18 dcf8006 loading the bloom filter leaked a value
C18 4b629ab saving the bloom filter after clearing its store left out buckets
C26 bdf069c pooled msgpack buffers kept the content of the previous row
C05 d79844a UnsafeUpdate closed the batch of the caller
C05 17a9af1 full scans and queries skipped rows below the empty primary key
C12 d0d5511 intersections read the rows past the batch
C10 d482375 intersections with After ignored offset and limit
C11 6b9fa73 intersections ignored Reverse
C09 8d8d4fc large offsets and limits overflowed
C11 df356b7 derived intersections shared their sub queries
C10 6d02d27 After with Reverse, unsorted lists and primary points returned wrong rows
C18 54daeeb clearing a bloom filter whose key prefix ends in 0xFF cleared nothing or too much
C18 55983e0 a failed load of the bloom filter left values open
C25 f177b0f an index with the id of the primary index was accepted
C20 b4aa7d5 Dump took the index list from a later state than its snapshot and hid failed reads
C21 779c6b8 Open took an unreadable data version for a missing one
C14 255bb2c an index scan skipped rows after a failed prefetch that its callback ignored
C28 95389a4 a panic in WithSync left the batch locked
C08 d340a68 range scans included index entries that only start like the upper key
C05 53f8c1d Get of several points took rows stored as empty values for missing
C26 b9f1016 pooled msgp buffers kept the content of the previous row
C29 76c2575 the file based filter store deleted names outside the given range
C18 88cb3d5 loading a bloom filter with a damaged bucket number panicked
C27 5d027ad inspecting a secondary index of a table of plain structs panicked
C27 313b65e inspecting with null values or values of named types panicked
C27 35720f5 a query of the inspection client ignored its context
C20 3f7714c dump and restore on the command line truncated table ids to a byte
"""
if __name__ == "__main__":
    f = os.path.join(root, "known_findings.json")
    d = [x for x in json.load(open(f)) if x["status"] != "fixed"]
    for l in FIXED.strip().splitlines():
        p, c, w = l.split(" ", 2)
        d.append({"id": "fixed-" + c, "property": p, "status": "fixed", "commit": c, "what": w,
                  "entry": "fixed: property=%s %s %s" % (p, c, w)})
    json.dump(d, open(f, "w"), indent=1)
    print(len(d))

#!/usr/bin/env python3
"""Writes known_findings.json: every genuine defect found, all repaired so far (status "fixed" suppresses nothing)."""
import glob, json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [  # property, fix commit, what failed
    ("C04", "f38f2db", "a frame completed over several append calls was read from the wrong place (heap overflow) and never reached the multiscale levels"),
    ("C07", "234fa67", "multiscale levels averaged bytes instead of pixels, wrapped around, and lost the last row or column of odd sizes"),
    ("C13", "a020d8e", "every second intermediate multiscale frame leaked"),
    ("C02", "db9b985", "with several chunks per shard along the append dimension, later chunks overwrote the index entries of earlier ones"),
    ("C02", "5e9a907", "a stream that ended exactly at a chunk boundary inside a shard never wrote the shard index; a stream without frames had no array metadata (also C05, C15)"),
    ("C11", "1880bfd", "chunks that could not be compressed or written were not reported (also C16)"),
    ("C19", "0659c90", "FileSink reported success although the file could not be opened or written, and held data back (also C10, C11)"),
    ("C18", "c4afc6f", "VectorizedFileWriter failed for more than IOV_MAX buffers, lost data on short writes and wrote to wrong offsets"),
    ("C09", "af0da86", "compression settings with compressor None gave a store with compressor 'unrecognized codec' or were refused"),
    ("C09", "cffcfd6", "null strings in S3 settings or a null dimension name crashed ZarrStream_create"),
    ("C09", "1407bd2", "a dimension name that is not UTF-8 was refused only after the old store had been removed"),
    ("C09", "5bc3e9e", "the untrimmed store path was validated, another one used"),
    ("C06", "7c8672e", "empty custom metadata gave an empty acquire.json, which is not JSON"),
    ("C06", "c208732", "0/.zattrs of v2 stores was an empty file, which is not JSON"),
    ("C24", "6336e5a", "planning the pyramid never ended when nothing could be halved"),
    ("C20", "85f0852", "sizes and frame positions overflowed 32 bits (also C25, C26)"),
    ("C13", "4a3a630", "destroying a stream after a failure left files, threads and connections behind (also C16)"),
    ("C12", "2e99c9f", "the error message of a stream was written by pool threads while others read it"),
    ("C12", "875975c", "directory and file jobs touched the stack of their waiter after releasing it"),
    ("C27", "f491c06", "a directory creation job threw, which ended the process"),
    ("C27", "5a4c7ec", "a sink for a file in the working directory could not be made"),
    ("C16", "e756b1e", "an S3 request that threw kept its connection, later calls waited for ever"),
    ("C16", "fe757be", "an object was completed although one of its parts had failed"),
    ("C13", "aebeba5", "chunk buffers that cannot be allocated ended the process"),
    ("C17", "c5b4d49", "failure to start a thread ended the process"),
    ("C21", "97df6bb", "the log level was read and written without synchronisation"),
    ("C14", "a02e86a", "an S3 sink written out of order lost data"),
    ("C09", "7bfa14b", "enumerators that are negative as ints were accepted"),
    ("C11", "9a34d46", "a shard file that could not be opened was written to (null dereference)"),
    ("C16", "0ed0c39", "after a failed flush, later data was written to the wrong place"),
    ("C20", "392742f", "tile counts were rounded for sizes near 2^32"),
    ("C27", "c1ea5a1", "a metadata base path given as a string view was read beyond its end"),
    ("C07", "b94f390", "rows, columns and pixels of a frame were counted with an int, which overflows for dimensions of 2^31 pixels and more (found by sub-check huge_x, which runs on every change)"),
    ("C30", "7e3e5e8", "the Python binding ignored the strides of arrays: those that are not packed were stored wrong, from memory outside them at worst"),
]
out = []
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
for prop, h, what in F:
    e = {"property": prop, "status": "fixed", "commit": h, "what": what, "line": f"fixed: property={prop} {h} {what}",
         "replays": sorted(os.path.relpath(p, V) for p in glob.glob(f"{V}/corpus/*/*{h}*.json"))}
    assert h in log, h
    out.append(e)
json.dump(out, open(V + "/known_findings.json", "w"), indent=1)
fixes = [l.split()[0][:7] for l in log.splitlines() if " fix: " in l]
assert set(fixes) == {h for _, h, _ in F}, set(fixes) ^ {h for _, h, _ in F}

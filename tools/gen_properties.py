#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the file stays consistent)."""
import json, os
P = []
S = "src/streaming/"


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)


prop("C01", "Zarr v2 stores read back exactly the frames that were appended",
     "For every valid Zarr v2 configuration and every sequence of complete frames, once the stream is destroyed an "
     "independent Zarr v2 reader of the store decodes an array of the declared type whose element at every index is the "
     "pixel of the frame streamed for that index. Every chunk file is a full-size chunk, and everything outside the "
     "streamed region reads as the fill value 0.",
     ["inputs", "configurations"],
     "all dimension counts >= 3, array/chunk sizes (ragged, chunk larger than array, one-pixel), all ten data types, any pixel bytes, any number of frames including zero and partial last chunks",
     "The integration tests sample about a dozen fixed geometries with zero or constant frames (and cannot even run where minio-cpp is missing), so tile placement, ragged edges and the last partial chunk are only spot-checked.",
     [S + "array.writer.cpp", S + "zarrv2.array.writer.cpp", S + "zarr.dimension.cpp", S + "zarr.stream.cpp", S + "sink.creator.cpp"],
     [("frame to chunk tiling", S + "array.writer.cpp: write_frame_to_chunks_"),
      ("flush and rollover", S + "array.writer.cpp: flush_, should_flush_, rollover_"),
      ("one file per chunk", S + "zarrv2.array.writer.cpp: flush_impl_; sink.creator.cpp: make_data_sink_paths_")],
     ["chunk files and 0/.zarray under the store path"])

prop("C02", "Zarr v3 sharded stores read back exactly the frames that were appended",
     "For every valid Zarr v3 configuration and every sequence of complete frames, once the stream is destroyed an independent "
     "reader that follows each shard's trailing chunk index (offset, size per chunk, all-ones for a missing chunk) decodes exactly "
     "the streamed pixels, with 0 everywhere else. The index of every shard is complete and well formed: entries lie inside the "
     "shard, do not overlap, and cover all bytes before the index.",
     ["inputs", "configurations"],
     "all geometries incl. shards that are ragged, span several chunks of the append dimension, or end part way through; all data types; any frame count",
     "The v3 tests use a handful of fixed shapes (mostly exact multiples and one append-dimension chunk per shard), so index entries of ragged and multi-layer shards and unfinished shards are unchecked.",
     [S + "zarrv3.array.writer.cpp", S + "array.writer.cpp", S + "zarr.dimension.cpp"],
     [("shard tables and file offsets", S + "zarrv3.array.writer.cpp: flush_impl_"),
      ("chunk to shard mapping", S + "zarr.dimension.cpp: shard_index_for_chunk, shard_internal_index"),
      ("shard rollover", S + "zarrv3.array.writer.cpp: should_rollover_")],
     ["data/root/0/c*/... shard files and meta/root/0.array.json"])

prop("C03", "Compression is lossless and the metadata names the codec really used",
     "For every allowed codec, level and shuffle mode and any pixel data, each stored chunk is a self-contained Blosc frame "
     "that decompresses to exactly the bytes the same stream stores uncompressed, and no other file of the store differs except "
     "for the recorded compressor and the byte positions that depend on compressed sizes. The compressor recorded in the array "
     "metadata (none, or codec name, level, shuffle) is the one requested and agrees with the Blosc header of the chunks.",
     ["inputs", "configurations"],
     "codec x level 0..9 x shuffle 0..2 x both versions x data types x compressible and incompressible data, settings present but with the compressor off",
     "Tests compress constant or zero frames with one level and shuffle setting; incompressible data, level 0 and mixed settings are never decoded.",
     [S + "array.writer.cpp", S + "blosc.compression.params.cpp", S + "zarrv2.array.writer.cpp", S + "zarrv3.array.writer.cpp"],
     [("chunk compression", S + "array.writer.cpp: compress_buffers_"),
      ("codec naming", S + "blosc.compression.params.cpp: blosc_codec_to_string"),
      ("compressor metadata", S + "zarrv2.array.writer.cpp, zarrv3.array.writer.cpp: write_array_metadata_")],
     ["chunk bytes, .zarray compressor, array.json compressor"])

prop("C04", "Splitting the data over append calls never changes the stored data",
     "For every way of cutting the same byte sequence into append calls, including pieces smaller or larger than a frame, empty "
     "pieces and pieces that straddle frame boundaries, the resulting store (all resolution levels included) is identical, and a "
     "trailing incomplete frame is never stored. Each successful call reports as written exactly the number of bytes it was given.",
     ["histories", "inputs"],
     "all partitions of a frame stream into append calls, multiscale on and off, both versions",
     "Every test appends exactly one whole frame per call, so the partial-frame buffering path is never executed.",
     [S + "zarr.stream.cpp", S + "acquire.zarr.cpp"],
     [("partial frame buffering", S + "zarr.stream.cpp: ZarrStream::append"),
      ("bytes_out accounting", S + "acquire.zarr.cpp: ZarrStream_append")],
     ["bytes_out of each append; the finished store"],
     [("frame_buffer_", "bytes of the incomplete frame", S + "zarr.stream.hh")])

prop("C05", "Array metadata describes exactly the array that was stored",
     "After the stream is destroyed every resolution level has one array metadata document, valid for its Zarr version, whose shape, "
     "chunk shape, shard shape, data type, fill value, order and compressor equal those of the requested settings and whose length along the append "
     "dimension is the number of append-dimension slices touched by the frames that level received. The document stays valid JSON and consistent with the data after "
     "every flush boundary, whatever the number of frames.",
     ["inputs", "configurations", "histories"],
     "all geometries, data types, compressors, versions and frame counts (exact multiples, partial slices, many rollovers)",
     "Tests check the metadata of a few fixed acquisitions whose frame counts were picked by hand; the shape formula for partial inner dimensions is not exercised.",
     [S + "zarrv2.array.writer.cpp", S + "zarrv3.array.writer.cpp", S + "array.writer.cpp"],
     [("array metadata", S + "zarrv2.array.writer.cpp, zarrv3.array.writer.cpp: write_array_metadata_"),
      ("rewriting in place on each rollover", S + "array.writer.cpp: flush_")],
     [".zarray, *.array.json"])

prop("C06", "Group, OME and user metadata faithfully reflect the settings",
     "Every store holds valid JSON group documents for its version: one axis per dimension in order with its name, kind and unit, one dataset entry per resolution level that exists on "
     "disk, in order, with its scale factors. The user's JSON metadata is stored value-for-value unchanged (an empty object when none was given).",
     ["inputs", "configurations"],
     "arbitrary dimension names (any UTF-8, quotes, control characters), all dimension kinds and counts, any JSON document as user metadata (with surrounding whitespace or comments), multiscale on or off",
     "Tests compare one fixed metadata string and single-letter dimension names.",
     [S + "zarr.stream.cpp", S + "sink.creator.cpp"],
     [("multiscale metadata", S + "zarr.stream.cpp: make_multiscale_metadata_"),
      ("group and base metadata", S + "zarr.stream.cpp: write_group_metadata_, write_base_metadata_"),
      ("custom metadata", S + "zarr.stream.cpp: write_external_metadata_")],
     [".zgroup, .zattrs, acquire.json, zarr.json, meta/root.group.json, meta/acquire.json"])

prop("C07", "Every multiscale level holds the 2x local mean of the level below it",
     "With multiscale on, level k+1 has half the width and height of level k (rounded up, edge pixels replicated) and one frame for every two consecutive frames of "
     "level k; each of its pixels is the mean of the corresponding 2x2 blocks of those two frames, up to rounding to the data type. This holds for every data "
     "type and the full range of its values, without overflow.",
     ["inputs", "configurations"],
     "all data types incl. extreme values, odd and even sizes, any number of levels, any frame count (odd leftovers dropped), 3-D acquisitions of any length",
     "The multiscale tests stream zero frames and check only file counts and shapes; pixel values of the reduced levels are never compared.",
     [S + "zarr.stream.cpp", S + "array.writer.cpp"],
     [("2x2 reduction", S + "zarr.stream.cpp: scale_image"),
      ("pairing of frames", S + "zarr.stream.cpp: average_two_frames, write_multiscale_frames_"),
      ("level geometry", S + "array.writer.cpp: downsample")],
     ["arrays 1..n of the store"])

prop("C08", "A stream writes exactly its store layout, replacing what was there before",
     "After creation and destruction the store directory contains exactly the files and directories of the documented layout for "
     "its version, geometry, levels and frame count: anything previously at the store path is gone, and nothing is missing or extra. No path "
     "outside the store is created, changed or removed.",
     ["configurations", "histories"],
     "all geometries and frame counts; store path absent, an existing file, an old store of another version, a directory of arbitrary content, or a path with blanks, unicode, dots or a trailing slash; sibling paths with similar names",
     "Tests check that some expected files exist and have the right size in a fresh directory; leftovers, extras and neighbours are not examined.",
     [S + "zarr.stream.cpp", S + "sink.creator.cpp", S + "array.writer.cpp"],
     [("store creation", S + "zarr.stream.cpp: create_store_"),
      ("path enumeration", S + "sink.creator.cpp: make_data_sink_paths_, make_metadata_sink_paths_")],
     ["directory tree around the store path"])

prop("C09", "Settings are either accepted, or rejected without any side effect",
     "For every settings structure, stream creation returns a usable stream if and only if the settings meet the documented constraints; "
     "otherwise it returns NULL with an error logged, without crashing or hanging even when pointers inside the structure are NULL. A rejected configuration "
     "leaves the file system as it was, an existing store at that path included.",
     ["inputs", "configurations"],
     "all combinations of valid, boundary, out-of-range and missing field values (version, type, dimensions, compression, metadata JSON, store path, S3 fields)",
     "create-stream and create-dimension tests try a few single-field errors; interactions, NULL members and effects on an existing store are not tested.",
     [S + "zarr.stream.cpp", S + "acquire.zarr.cpp", S + "zarr.common.cpp"],
     [("validation", S + "zarr.stream.cpp: validate_settings and helpers"),
      ("exception boundary", S + "acquire.zarr.cpp: ZarrStream_create")],
     ["return value, log, directory tree"])

prop("C10", "Data acknowledged by append survives the death of the process",
     "When append has returned success for all frames of a completed chunk row (Zarr v2) or shard row (Zarr v3), killing the process at any later point leaves a store in which those "
     "frames are complete on disk and the array metadata is valid and covers at least them. Data appended later never damages what was already acknowledged. On S3 the data objects of those rows are on the server, complete, whenever the client dies.",
     ["crash_points", "histories"],
     "a kill after any append call or at any file-system call of later operations, for any geometry, version and frame count",
     "No test stops a stream anywhere but at its orderly end.",
     [S + "array.writer.cpp", S + "file.sink.cpp", S + "zarrv2.array.writer.cpp", S + "zarrv3.array.writer.cpp"],
     [("flush on chunk boundary", S + "array.writer.cpp: flush_"),
      ("sinks closed at rollover", S + "array.writer.cpp: rollover_, close_sinks_"),
      ("metadata written at rollover", S + "array.writer.cpp: flush_; file.sink.cpp: write")],
     ["store directory after the kill"])

prop("C11", "File-system failures are reported, never silently swallowed",
     "If any file-system operation needed by a stream fails (full disk, denied, out of descriptors, I/O error, at any point and any number of times), the process neither crashes nor hangs and "
     "the failure is reported: creation returns NULL or an append returns an error, or an error is logged when the failure occurs while the stream is destroyed, which returns nothing. Whenever every call reported success and destroying the stream logged no error, the store is complete and correct.",
     ["fault_sequences", "configurations"],
     "failure of the n-th open, directory creation or write, transient or persistent, with any of the usual errno values, at creation, append or destruction",
     "No test injects any failure; everything runs on a healthy disk.",
     [S + "file.sink.cpp", S + "sink.creator.cpp", S + "array.writer.cpp", S + "zarr.stream.cpp", S + "acquire.zarr.cpp"],
     [("sink results", S + "file.sink.cpp: write, flush_"),
      ("parallel creation of files and directories", S + "sink.creator.cpp: make_dirs_, make_files_"),
      ("error propagation", S + "zarr.stream.cpp: set_error_, append; thread.pool.cpp: process_tasks_")],
     ["status codes, error log, store directory"])

prop("C12", "Results do not depend on thread count or schedule, and there are no data races",
     "For every configuration and frame sequence the store is bit-identical whatever the number of worker threads and however they are scheduled, and every call returns. No "
     "execution contains a data race.",
     ["schedules", "configurations"],
     "1..n hardware threads, delays injected at system-call and job boundaries, multiscale, compression, both versions and both storage back ends",
     "Tests run once with the machine's natural schedule; races and order dependence show up only under particular interleavings.",
     [S + "thread.pool.cpp", S + "array.writer.cpp", S + "zarrv2.array.writer.cpp", S + "zarrv3.array.writer.cpp", S + "sink.creator.cpp", S + "s3.connection.cpp", S + "zarr.stream.cpp"],
     [("job queue", S + "thread.pool.cpp"), ("latches around parallel phases", S + "array.writer.cpp: compress_buffers_; zarrv2/3.array.writer.cpp: flush_impl_; sink.creator.cpp")],
     ["stores of two runs; ThreadSanitizer reports"])

prop("C13", "A stream is memory-safe and gives back every resource it took",
     "No sequence of API calls reads or writes outside its buffers, uses freed memory, executes undefined behaviour or ends the process - not even when memory for the "
     "buffers cannot be had, which is an error to report. After a stream is destroyed, or its creation failed, all "
     "memory, threads, file descriptors and S3 connections it acquired are released, whatever was appended and whether or not an error occurred.",
     ["histories", "configurations", "fault_sequences"],
     "all configurations, partial frames, multiscale with leftover frames, failed creations, failed finalisation, failing allocations of large buffers, repeated create/destroy",
     "Tests run without sanitizers and never count threads, descriptors or memory.",
     [S + "zarr.stream.cpp", S + "acquire.zarr.cpp", S + "array.writer.cpp", S + "s3.connection.cpp"],
     [("destruction", S + "acquire.zarr.cpp: ZarrStream_destroy; zarr.stream.cpp: finalize_stream"),
      ("scaled frame ownership", S + "zarr.stream.cpp: write_multiscale_frames_")],
     ["AddressSanitizer/UBSan reports, allocated bytes, /proc/self/task, /proc/self/fd"])

prop("C14", "An object written to S3 holds exactly the bytes written to its sink",
     "For every sequence of in-order writes, of any sizes from one byte to many upload parts, finalising the sink leaves one object whose content is exactly the written bytes at their "
     "offsets, uploaded either whole or as numbered parts that each satisfy the S3 part-size and ordering rules. Before finalisation no object appears, afterwards no "
     "upload is left open, and a write before an already uploaded position is refused.",
     ["inputs", "histories"],
     "write sizes around the 5 MiB part size (and its multiples), many tiny writes, rewrites of still-buffered data",
     "The S3 sink tests need a live server, so they never run offline, and use one small and one large object.",
     [S + "s3.sink.cpp", S + "s3.connection.cpp", S + "sink.cpp"],
     [("buffering into parts", S + "s3.sink.cpp: write, flush_part_"), ("finalisation", S + "s3.sink.cpp: flush_, finalize_multipart_upload_")],
     ["objects and upload log of an in-memory S3 server"],
     [("nbytes_flushed_/nbytes_buffered_", "position of the part buffer in the object", S + "s3.sink.hh")])

prop("C15", "An S3 store has the same objects and contents as the file-system store",
     "For every configuration and frame sequence, streaming to S3 produces, under the store path as key prefix, exactly the objects that streaming the same data to a "
     "directory produces as non-empty files, byte for byte. No upload is left incomplete.",
     ["inputs", "configurations"],
     "all geometries, versions, compressors, multiscale, frame counts; objects smaller and larger than one upload part",
     "S3 tests need credentials and a server and are skipped offline; they check presence and size of a few objects.",
     [S + "sink.creator.cpp", S + "s3.sink.cpp", S + "array.writer.cpp", S + "zarrv3.array.writer.cpp"],
     [("S3 sinks", S + "sink.creator.cpp: make_s3_objects_, make_sink"), ("finalisation of open sinks", S + "array.writer.cpp: close_sinks_, finalize_array")],
     ["objects of an in-memory S3 server"])

prop("C16", "S3 failures are reported and never leave a falsely complete store",
     "If any S3 request fails, once or persistently, every API call still returns, the failure is reported (NULL stream, error status of an append, or a logged error when it occurs during destruction), and connections "
     "go back to the pool so that later requests can proceed. An object that exists never lacks parts of what was written to it before it was completed, and if nothing was reported the store is complete.",
     ["fault_sequences", "schedules"],
     "failure of the n-th request of any kind (list, stat, put, create/upload/complete multipart), before or after the server applied it, with any number of connections",
     "Offline there is no S3 server at all, and no test makes a request fail.",
     [S + "s3.sink.cpp", S + "s3.connection.cpp", S + "sink.creator.cpp", S + "zarr.stream.cpp"],
     [("connection pool", S + "s3.connection.cpp: get_connection, return_connection"), ("part bookkeeping", S + "s3.sink.cpp: flush_part_, create_multipart_upload_"),
      ("error propagation", S + "array.writer.cpp, zarr.stream.cpp")],
     ["status codes, error log, objects of an in-memory S3 server"])

prop("C17", "Every accepted job runs exactly once and every failure is reported",
     "Each job the pool accepts runs exactly once before a stop request returns, on at most the requested number of threads and never more than the hardware offers; each failing job's message is "
     "handed to the error handler exactly once and successful jobs never reach it. After a stop request nothing is accepted and rejected jobs never run; stopping again or destroying the pool "
     "is safe, and with one thread jobs run in the order they were accepted.",
     ["schedules", "histories"],
     "any number of threads and producers, jobs that are instant, slow, failing, or that push more jobs; stop requests racing with producers; destruction with queued jobs",
     "One test pushes one job and waits; contention, ordering, failures and shutdown races are untested.",
     [S + "thread.pool.cpp", S + "thread.pool.hh"],
     [("queue and condition variable", S + "thread.pool.cpp: push_job, process_tasks_"), ("shutdown", S + "thread.pool.cpp: await_stop, destructor")],
     ["return values, execution counters, error handler calls"],
     [("is_accepting_jobs_", "pool is open for jobs", S + "thread.pool.hh")])

prop("C18", "Vectored writes put every buffer at its exact place in the file",
     "A successful vectored write stores the concatenation of its buffers at the given offset and changes no other byte of the file; any list of buffers (none, empty ones, very many) and any "
     "offset, beyond 4 GiB included, is supported. Writes from several threads to one file are all applied, and a write that could not be stored completely is reported as failed.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "buffer counts from 0 to several thousand, buffer sizes from 0 to megabytes, offsets from 0 to tens of GiB, existing files, interleaved and concurrent writes, short and failing system calls",
     "The test writes two fixed patterns of ten page-sized buffers.",
     [S + "vectorized.file.writer.cpp", S + "vectorized.file.writer.hh"],
     [("gather write", S + "vectorized.file.writer.cpp: write_vectors"), ("open without truncation", S + "vectorized.file.writer.cpp: constructor")],
     ["file contents and size, return value"])

prop("C19", "A file sink stores exactly what was written to it and reports failures",
     "After any sequence of writes at any offsets and a successful finalisation the file holds, for every byte, the last value written there, zero for gaps, and has the length of the furthest write; "
     "a file that existed before is replaced. If the file cannot be opened or any write or the finalisation cannot be completed, construction, a write or finalisation reports failure.",
     ["histories", "inputs", "fault_sequences"],
     "overlapping, backward, sparse (past 4 GiB), empty and large writes; existing file contents; failing and short system calls; missing directories, directories in place of files",
     "The test writes one string at offset zero on a healthy disk.",
     [S + "file.sink.cpp", S + "sink.cpp"],
     [("positioned writes", S + "file.sink.cpp: write"), ("flush at finalisation", S + "file.sink.cpp: flush_; sink.cpp: finalize_sink")],
     ["file contents, return values"])

prop("C20", "Every frame maps to its own place in the chunk buffers, for all geometries",
     "For every dimension list and frame number, the chunk index along each dimension, the group of chunks and the byte offset inside the chunk are those given by row-major decomposition of the frame number "
     "over the dimensions, and they are within the buffers. Two different frames of the same chunk row never share a place, and all quantities stay exact for sizes and frame numbers far beyond 32 bits.",
     ["inputs", "configurations"],
     "3 to 8+ dimensions, sizes from 1 to 2^32-1, ragged and oversized chunks, frame numbers up to 2^63, all data types",
     "The unit tests tabulate a few frames of one five-dimensional geometry.",
     [S + "zarr.dimension.cpp", S + "zarr.dimension.hh"],
     [("lattice index", S + "zarr.dimension.cpp: chunk_lattice_index"), ("group offset", S + "zarr.dimension.cpp: tile_group_offset"), ("internal offset", S + "zarr.dimension.cpp: chunk_internal_offset")],
     ["values returned for generated geometries"])

prop("C21", "Logging obeys the configured level and never changes behaviour",
     "Setting a valid level succeeds and is what is read back; an invalid one is refused and changes nothing. Exactly the messages at or above the level are emitted, errors to the error stream and the others "
     "to standard output, each as one unbroken line even when many threads log; every status code has its own fixed message, unknown codes get a fallback, and the level never influences what streams return or store.",
     ["inputs", "histories", "schedules"],
     "all sequences of level changes (invalid ones included) interleaved with messages of all levels from any number of threads, and all integers as status codes",
     "Level handling is only used to raise verbosity in tests; nothing examines what is emitted or filtered.",
     ["src/logger/logger.hh", "src/logger/logger.cpp", S + "acquire.zarr.cpp"],
     [("filter and emission", "src/logger/logger.hh: Logger::log"), ("level", "src/logger/logger.cpp: set_log_level"), ("API mapping", S + "acquire.zarr.cpp: Zarr_set_log_level, Zarr_get_status_message")],
     ["stdout/stderr, return values, stores"])

prop("C22", "Concurrently active streams do not affect each other",
     "When several streams are open at the same time, driven from one thread in any interleaving or from several threads, each produces exactly the store it would have produced alone, and "
     "an error or destruction of one leaves the others working.",
     ["histories", "schedules"],
     "any number of streams of different versions, geometries, back ends and compressors; any interleaving of create, append and destroy; one of them failing",
     "Every test uses one stream at a time.",
     [S + "zarr.stream.cpp", S + "acquire.zarr.cpp", "src/logger/logger.hh", S + "thread.pool.cpp"],
     [("per-stream pools, buffers and writers", S + "zarr.stream.hh"), ("shared logger", "src/logger/logger.cpp")],
     ["stores of all streams"])

prop("C23", "Caller-owned settings and buffers are only borrowed",
     "A stream keeps no reference to its settings: changing or freeing every pointer in them after creation never changes the result, creation never modifies them, and append never modifies or retains the "
     "caller's buffer. The dimension-array helpers allocate the requested number (at least three) of entries, free what was there before, refuse invalid requests unchanged, and may be called in any order any number of times.",
     ["histories", "inputs"],
     "all sequences of array create/destroy with any counts, including on fresh and NULL settings; settings and buffers overwritten and freed right after each call",
     "Tests keep settings alive and free them once, in the expected order.",
     [S + "acquire.zarr.cpp", S + "zarr.stream.cpp"],
     [("copying of settings", S + "zarr.stream.cpp: commit_settings_"), ("dimension array", S + "acquire.zarr.cpp: ZarrStreamSettings_create_dimension_array, _destroy_")],
     ["stores, settings bytes before and after, AddressSanitizer"])

prop("C24", "The multiscale pyramid is finite and every level halves what it should",
     "For every valid geometry, planning the resolution levels terminates with the pyramid ending once halving shrinks some chunk or nothing can be halved any more. Every level halves (rounding up) each non-channel dimension of the "
     "level above, leaves channel dimensions untouched, keeps chunks no larger than the array and shards no larger than the chunk grid, and keeps names, kinds, data type and compression.",
     ["configurations"],
     "all geometries incl. one-pixel chunks, chunks larger than the array, sizes of 1, odd sizes, channel dimensions anywhere, large sizes",
     "The downsample tests use two hand-picked configurations.",
     [S + "array.writer.cpp", S + "zarr.stream.cpp"],
     [("level planning", S + "array.writer.cpp: downsample"), ("writer creation loop", S + "zarr.stream.cpp: create_writers_")],
     ["metadata of each level; planned configurations"])

prop("C25", "Chunks and shards partition the array with no overlap and no omission",
     "For every dimension list, each chunk of a chunk row belongs to exactly one existing shard, at the slot given by row-major position inside that shard, and no two chunks of a shard share a slot. The counts of chunks, "
     "shards and chunks per shard, and the chunk size in bytes, agree with this partition, ragged edges included.",
     ["inputs", "configurations"],
     "3 to 8 dimensions, any sizes, ragged chunks and shards, shards larger than the array, all data types, counts up to 2^32",
     "The unit tests tabulate one geometry per function.",
     [S + "zarr.dimension.cpp", S + "zarr.common.cpp"],
     [("shard index", S + "zarr.dimension.cpp: shard_index_for_chunk"), ("slot in shard", S + "zarr.dimension.cpp: shard_internal_index"),
      ("counts", S + "zarr.dimension.cpp: number_of_chunks_in_memory, number_of_shards, chunks_per_shard, bytes_per_chunk; zarr.common.cpp: chunks_along_dimension, shards_along_dimension")],
     ["values returned for generated geometries"])

prop("C26", "Basic size, string and codec helpers are exact for every argument",
     "Sizes of data types and frames, part counts along a dimension, trimming and emptiness of strings and codec names are correct for every argument, without overflow wherever the result fits 64 bits. Invalid arguments (unknown "
     "type, zero chunk size) are refused with an exception, and an empty-string check logs its message exactly when the string is blank.",
     ["inputs"],
     "all data type values in and out of range, all 32-bit sizes, arbitrary byte strings with any mix of white space, all codec values",
     "Only used incidentally by other tests.",
     [S + "zarr.common.cpp", S + "blosc.compression.params.cpp"],
     [("helpers", S + "zarr.common.cpp"), ("codec names", S + "blosc.compression.params.cpp: blosc_codec_to_string")],
     ["return values, exceptions, log"])

prop("C27", "Storage targets are created one per part, in chunk order, or failure is reported",
     "For every geometry, opening the storage of a chunk or shard row yields exactly one writable target per part, in row-major part order, each at the path or key made of the part's indices, creating the "
     "directories it needs; metadata targets are those of the Zarr version. If any of them cannot be created the request reports failure, and an empty path or bucket, an unknown version, a dimension without parts or a missing bucket is refused (for the objects of a chunk or shard row at the latest when they are written).",
     ["inputs", "configurations", "fault_sequences"],
     "all geometries, base paths (relative, absolute, file:// prefixed, odd characters), versions, both back ends, obstacles in the way (files where directories are needed and vice versa), failing system calls",
     "Tests create sinks for one fixed geometry and check that files exist.",
     [S + "sink.creator.cpp", S + "sink.creator.hh"],
     [("path enumeration", S + "sink.creator.cpp: make_data_sink_paths_, make_metadata_sink_paths_"), ("creation", S + "sink.creator.cpp: make_dirs_, make_files_, make_s3_objects_, make_sink")],
     ["returned sinks, directory tree, objects"])

prop("C28", "S3 requests carry the stream's own endpoint, protocol, keys and bucket",
     "Every request a stream sends to an S3 store goes to the endpoint in its settings, over the protocol the endpoint names, signed with the access key and the secret key in its settings (blanks around them aside), and to its own bucket, "
     "also when other streams with other settings live in the same process, before it or at the same time. A stream whose keys the server does not know, or which may not use its bucket, is not created, and nothing of anybody else's is changed.",
     ["inputs", "configurations", "concurrency"],
     "all endpoints (http, https, without a scheme), keys, buckets and prefixes; one to several streams that differ in any of them, one after the other, interleaved or on threads",
     "Tests use one server, one pair of keys and one bucket, and are skipped without a server.",
     [S + "s3.connection.cpp", S + "s3.connection.hh", S + "zarr.stream.cpp", S + "sink.creator.cpp", S + "s3.sink.cpp"],
     [("connection", S + "s3.connection.cpp: S3Connection::S3Connection, S3ConnectionPool"), ("settings", S + "zarr.stream.cpp: commit_settings_, create_store_"), ("sinks", S + "sink.creator.cpp: make_s3_objects_; " + S + "s3.sink.cpp")],
     ["requests as seen by the server (endpoint, protocol, keys, bucket, object)", "ZarrStream_create returning NULL", "objects of all buckets"])
prop("C29", "A running stream's memory, descriptors, threads and connections do not grow",
     "What a running stream holds (allocated memory, open file descriptors, threads, connections) is bounded by its geometry: once all its resolution levels have come back to the same state it holds no more than it did a period earlier, however many frames have been streamed.",
     ["inputs", "histories"],
     "all geometries, versions, codecs and back ends, with and without lower resolutions; append sizes from one frame to several rows",
     "Tests stream a few rows of chunks and look at the files afterwards; a leak that is released at destruction is seen by no test and no leak checker.",
     [S + "zarr.stream.cpp", S + "array.writer.cpp", S + "zarrv2.array.writer.cpp", S + "zarrv3.array.writer.cpp", S + "s3.sink.cpp", S + "thread.pool.cpp"],
     [("rolling over", S + "array.writer.cpp: flush_, rollover_, close_sinks_"), ("shard tables", S + "zarrv3.array.writer.cpp: flush_impl_"), ("lower resolutions", S + "zarr.stream.cpp: write_multiscale_frames_"), ("uploads", S + "s3.sink.cpp")],
     ["bytes allocated, open descriptors, threads and connections after each append"])

prop("C30", "The Python binding stores arrays as their elements read, and settings as given",
     "Through the Python module every setting reads back as it was given, by keyword, by assignment or in place, for every value its type holds; values of another type or out of range are refused and change nothing. A stream made from "
     "settings stores exactly what those settings say, in a directory or on S3, whatever happens to the settings object afterwards; append stores the elements of the array in index (C) order whatever its layout in memory (transposed, sliced, "
     "reversed, strided), and reads nothing outside it. What cannot be created or appended raises RuntimeError. The text form of settings does not show the whole secret key (of six characters or more), and the log level is the library's.",
     ["inputs", "configurations", "histories"],
     "all settings, array shapes, strides and element types; histories of changes to settings objects; invalid settings; stores that cannot be written",
     "The binding's tests append packed arrays of one shape with a few settings; they do not run here (no pybind11).",
     ["python/acquire-zarr-py.cpp"],
     [("settings objects", "python/acquire-zarr-py.cpp: PyZarrS3Settings, PyZarrCompressionSettings, PyZarrDimensionProperties, PyZarrStreamSettings, PYBIND11_MODULE"), ("stream", "python/acquire-zarr-py.cpp: PyZarrStream::PyZarrStream, append, is_active")],
     ["attributes of settings objects", "exceptions", "store contents", "log level"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

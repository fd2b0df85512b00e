import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))
SW=["src/serial/842_compress.c","src/serial/842_decompress.c"]
OPT=["src/serial_optimized/842_compress.cpp","src/serial_optimized/842_decompress.cpp","src/serial_optimized/bitstream.cpp"]
CL=["src/ocl/cl842decompress.cpp","src/ocl/decompress.cl","include/lib842/cl.h"]
COM=["src/common/842.h","src/common/crc32.h","src/common/crc32table.h","src/common/opcodes.h"]
STC=["src/stream/DataCompressionStream.cpp","include/lib842/stream/comp.h","include/lib842/stream/block.h","include/lib842/stream/common.h"]
STD=["src/stream/DataDecompressionStream.cpp","include/lib842/stream/decomp.h","include/lib842/stream/block.h","include/lib842/stream/common.h"]
DET=["include/lib842/detail/barrier.h","include/lib842/detail/latch.h"]
p("C01","Compression followed by decompression restores the input",
 "Whatever bytes a compressor of the library accepts, decompressing its output with any decompressor of the library that supports that output returns success and exactly the original bytes with exactly the original length. This holds for every input content and length (including empty, non-multiples of eight for the reference implementation, and long inputs) and every alignment of the buffers, across the reference, optimized and OpenCL implementations in any combination.",
 ["inputs","configurations"],"every input byte string and length, every compressor/decompressor pair, every buffer alignment",
 "The tests round-trip six fixed patterns of one size (plus a diffuse generator) and never reach most template/ring-position/run-length combinations or mixed alignments.",
 SW+OPT+CL+COM,
 [("reference encoder and decoder","src/serial/842_compress.c:sw842_compress, src/serial/842_decompress.c:sw842_decompress"),("optimized encoder and decoder","src/serial_optimized"),("OpenCL decoder","src/ocl/decompress.cl")],
 [("ring of recent values","encoder's table of referable 2/4/8-byte values must mean the same positions the decoder resolves","842_compress.*: update_hashtables; 842_decompress.*: do_index/get_index")],
 ["sw842_compress/decompress","optsw842_compress/decompress","cl842_decompress"])
p("C02","Every decoder implements the documented 842 format",
 "For every well-formed 842 bitstream - not only those the library's own compressors emit - each decompressor produces exactly the output that the documented format assigns to it: all 26 templates, references into the 512- and 2048-byte ring buffers at every ring position, repeats of 1 to 64 blocks, zero blocks, and, for the reference decoder, short data. Consequently all decompressors agree on every stream they accept, and whatever follows the end marker and its checksum (padding) has no influence.",
 ["inputs"],"every well-formed bitstream of any length, each supported decoder and alignment",
 "The tests only decode what the library's compressors emit for a few patterns; streams of other encoders (such as the hardware's) use operations and references those never choose, and ring wrap-around is reached at few positions.",
 SW[1:]+OPT[1:2]+CL+COM,
 [("template dispatch and bit reader","842_decompress.c:do_op/next_bits; serial_optimized/842_decompress.cpp:read_bits and switch; decompress.cl:do_op/read_bits"),("ring offset correction","do_index/__do_index/get_index"),("repeat and zero operations","OP_REPEAT/OP_ZEROS cases")],
 [("output position","bytes written so far; only whole 8-byte blocks are referable","p.out - p.ostart")],
 ["return value, size and bytes of each decompress call"])
p("C03","Malformed streams are rejected with an error and no output size",
 "A stream that is not well-formed - truncated at any point, undefined operation code, reference to data not yet produced, repeat with fewer than eight bytes produced, empty short-data - makes every decompressor return a negative error and report an output size of zero, without crashing or hanging; a stream for which the reference or optimized decompressor cannot find a matching checksum is treated the same way. Operations reserved to software streams are either rejected or decoded per the format, never misread.",
 ["inputs","fault_sequences"],"every byte string given as compressed input, every output capacity",
 "The tests feed two fixed invalid inputs and one flipped checksum; the space of corruptions and truncation points is unbounded and the outcome must be an error for each.",
 SW[1:]+OPT[1:2]+CL,
 [("input-exhaustion checks","next_bits (-EOVERFLOW), read_word/read_bits (-EINVAL)"),("index range check","offset + size > total"),("repeat/short data checks","OP_REPEAT, OP_SHORT_DATA cases"),("checksum comparison","crc32_be at end of stream"),("size zeroed up front","*olen = 0")],
 [],["return value and size of each decompress call"])
p("C04","No access outside the caller's buffers; space errors are exact",
 "No compression or decompression call, for any input bytes (valid or not), any lengths, alignments and output capacity, reads outside the given input, or writes or reads outside the given output capacity, nor modifies its input. A valid operation succeeds if and only if its complete result fits in the given capacity; otherwise it fails with the out-of-space error and a reported size of zero.",
 ["inputs","configurations"],"every call of a compressor or decompressor: all inputs, lengths, capacities from zero upwards, buffer alignments",
 "The bounds test uses one pattern with halves and off-by-a-few capacities; it has no guard pages, and the failing combination depends on the exact bit offset at which the space runs out and on alignment.",
 SW+OPT+CL,
 [("output space checks","add_bits (-ENOSPC), stream_write_word (bitstream_full_exception), do_data/__do_index/OP_* checks"),("input split reads","next_bits/__split_next_bits"),("padding check","sw842_compress pad > olen")],
 [],["guard pages and canaries around both buffers, return value and size"])
p("C05","Compressors emit well-formed, bounded, interoperable streams",
 "Whatever a compressor emits is one well-formed 842 stream with the correct checksum, whose reported size is a multiple of eight bytes, ends with less than eight bytes of padding after the checksum and never exceeds the worst case of 69 bits per 8-byte block plus end marker, checksum and padding. For input lengths that are a multiple of eight only the operations of the hardware format are used; other lengths are encoded with the software-only short-data operation by the reference compressor and rejected with an error and zero size by the optimized compressor.",
 ["inputs","configurations"],"every input and capacity accepted by a compressor",
 "Tests only look at the result after decompressing it with the same library, so a stream that violates the format in a way both sides share, or wrong padding/size at rare bit offsets, goes unnoticed.",
 SW[:1]+[OPT[0],OPT[2]]+COM,
 [("template emission","add_template, add_repeat_template, add_zeros_template, add_short_data_template, add_end_template"),("padding","sw842_compress pad; stream_flush"),("template choice","process_next/get_template/ops_dict")],
 [],["bytes and size written by sw842_compress, optsw842_compress"])
p("C06","Calls are pure: history, concurrency and buffer contents do not matter",
 "The result of a compression or decompression call - return value, size and output bytes - depends only on its input bytes, the capacity and the alignment of its buffers: not on previous calls (including failed ones), not on what the output buffer or memory contained before, and not on other calls running concurrently in other threads.",
 ["histories","schedules"],"every sequence of earlier calls and every set of concurrent calls on distinct buffers",
 "Each test makes one call in a fresh single-threaded process, so carried-over state, uninitialised working memory and shared mutable state cannot show.",
 SW+OPT+CL[:1]+COM,
 [("per-call working state","struct sw842_param allocated and initialised per call"),("hash/ring tables reset","memset of node tables, std::fill of hash tables"),("read-only shared tables","crc32table, comp_ops, decomp_ops, ops_dict")],
 [],["results of repeated, interleaved and concurrent calls"])
p("C07","Batch calls equal a sequence of single calls",
 "Compressing or decompressing several evenly spaced chunks in one call is equivalent to making the single-chunk call for each chunk in order: each chunk's return value, size and output bytes at its own offset are those of the single call, a failing chunk does not influence the others, and no byte outside the chunks' output areas changes. Chunks marked as skipped are left completely untouched (their entries and their output area), and this holds for any number of chunks and any strides, including totals beyond 4 GiB.",
 ["inputs","configurations"],"every number of chunks, strides, per-chunk sizes and capacities, any subset skipped, valid or corrupt chunks",
 "No test calls the multi-chunk functions at all.",
 ["src/common/trivial_chunked.h","include/lib842/common.h"]+SW+OPT[:2],
 [("offset arithmetic and skip marker","src/common/trivial_chunked.h")],
 [("soffset/doffset","running offsets of the chunk being processed","trivial_chunked.h")],
 ["rets, olens and output area after *_chunked calls"])
p("C08","Compression stream delivers each block exactly once, then finishes",
 "For any number of threads, data size and thread schedule, an operation on a compression stream hands every whole block of the data to the block callback exactly once, with its offset and with chunk contents that decode to the source data (chunks that do not compress well enough are flagged and refer to the source), and hands over nothing else. The completion callback is invoked exactly once, with success, only after every block callback of the operation has returned, and the stream can then be reused for further operations with the same guarantee, including starting the next one from within the completion callback, and whatever other streams of the process do.",
 ["schedules","histories","inputs"],"every interleaving of the worker threads and the user thread, every thread count, data size and sequence of start/finalize operations",
 "No automatic test exercises the streams; a sample program runs one schedule per execution.",
 STC+DET,
 [("atomic block dispenser","_current_offset.fetch_add"),("trigger and finalizing conditions","_trigger, _finalizing under _mutex"),("finalization barrier and leader reset","loop_compress_thread finalization phase"),("compressibility threshold","handle_block, COMPRESSIBLE_THRESHOLD")],
 [("_current_offset","next block to hand out; huge when stopping","comp.h"),("_trigger/_finalizing/_error/_quit","operation state","comp.h")],
 ["block callback, completion callback, calls into the user-supplied implementation"])
p("C09","Epoch ordering of compressed blocks",
 "When an ordering granularity has been set on a compression stream, no block of a later epoch is handed to the block callback before the callbacks of every block of all earlier epochs have returned, for every thread count, data size (also when it is not a multiple of the granularity) and schedule, including operations that are cancelled, fail or are abandoned by destroying the stream. Setting it never prevents an operation from completing.",
 ["schedules","configurations"],"every interleaving, thread count, data size and granularity",
 "Never exercised by any test; a violation needs a thread that is overtaken between two barrier rounds.",
 STC+DET[:1],
 [("epoch barrier","loop_compress_thread: num_epochs loop over _finalize_barrier"),("barrier generations","include/lib842/detail/barrier.h")],
 [("last_offset","epoch a thread has synchronised up to","DataCompressionStream.cpp")],
 ["order of block callbacks"])
p("C10","Decompression stream restores every pushed block in place",
 "For any number of threads and any schedule, once the completion callback of a decompression stream operation reports success, every chunk of every block pushed to it - compressed, incompressible (copied from the block's source) - has been restored at the block's offset in the destination, absent chunks and all other bytes of the destination are untouched, and each pushed block has been processed exactly once. The callback is invoked exactly once and only after all pushed blocks have been processed; blocks can be pushed before or after threads are ready, the stream can be reused, and other streams of the process make no difference.",
 ["schedules","histories","inputs"],"every interleaving of pushes, finalization and worker threads; every mixture of compressed, incompressible and absent chunks",
 "No automatic test exercises the streams; incompressible and absent chunks are not reached even by the sample on ordinary data.",
 STD+DET,
 [("work queue","push_block / _queue under _mutex"),("chunk handling","handle_block, Block::get_chunk"),("finalization barrier","loop_decompress_thread finalization phase")],
 [("_queue","blocks pending","decomp.h"),("Block::sizes","0 = absent, chunk size = incompressible, otherwise compressed size","block.h")],
 ["destination memory, completion callback, return of push_block"])
p("C11","Stream failures are reported and do not leak into other operations",
 "If compressing or decompressing any block fails - the implementation reports a failure for the call or, when decompressing, for any chunk or a wrong decompressed size - the operation's completion callback is invoked exactly once with failure, pushes after a detected failure are refused, remaining work is abandoned (the thread that failed begins no further block, any other at most the one it had already been handed), and no crash or hang occurs. An operation in which nothing failed reports success regardless of failures, cancellations or leftover work in earlier operations on the same stream, and regardless of what happens in other streams of the process.",
 ["fault_sequences","schedules","histories"],"every placement of failures over blocks and operations, every interleaving",
 "No test injects a failure into a stream.",
 STC+STD,
 [("error flag, queue clearing","_error, _queue reset under _mutex"),("leader reset","finalization phase"),("chunk return codes","handle_block")],
 [("_error","failure seen in the current operation","comp.h, decomp.h")],
 ["completion callback argument, push_block result, error blocks"])
p("C12","Streams always terminate: finalize, cancel and destruction",
 "Once an operation is finalized - cancelling or not - its completion callback is eventually invoked exactly once, and destroying a stream at any moment (idle, before threads are ready, mid-operation, while finalizing, with work queued, during an ordering wait) always returns after all its threads ended, with no callback afterwards. No schedule leads to a deadlock or a lost wake-up, and a cancelled operation completes with success without starting on more work: after the cancelling call has returned, each worker thread processes at most the one block it had already been handed. Construction which fails because one of the threads cannot be created ends with an exception after those created before have ended.",
 ["schedules","crash_points"],"every interleaving of start, push, finalize, cancel and destruction with every worker thread",
 "Needs schedules that place the destruction or finalization between two specific instructions of a worker; no test exercises them.",
 STC+STD+DET,
 [("quit flag, notifications and barrier interruption","~DataCompressionStream, ~DataDecompressionStream"),("condition predicates","_trigger_changed/_queue_available waits"),("stop offset / queue reset on cancel","finalize")],
 [("_quit","destruction requested","comp.h, decomp.h"),("barrier._interrupted","barrier turned into a no-op","barrier.h")],
 ["termination of finalize/destructor, callbacks"])
p("C13","Barrier and latch semantics",
 "No thread leaves the n-th round of a barrier before all participating threads have arrived at it, all of them leave once the last one has arrived, and rounds can follow each other immediately without mixing up; after the barrier is interrupted nobody stays blocked in it. A latch releases all its waiters, present and future, exactly when it has been counted down to zero and never earlier.",
 ["schedules"],"every number of threads, rounds and interleavings of arrivals, waits, spurious wake-ups and interruption",
 "No test uses them directly; violations need a thread that re-enters the next round before a slow thread has left the previous one.",
 DET,
 [("generation counter","barrier::arrive_and_wait"),("interrupt flag","barrier::interrupt"),("count under mutex","latch::count_down/wait")],
 [("_count/_generation/_interrupted","arrivals in this round, round number, shut down","barrier.h"),("_value","remaining count","latch.h")],
 ["order of arrivals and departures"])
p("C14","OpenCL multi-chunk decompression formats",
 "The OpenCL decompressors restore every chunk of a buffer independently and at its own position: always-compressed chunks at the given stride; maybe-compressed chunks, where those carrying the compressed-chunk marker are decoded from the end of their slot, others are copied as they are and those marked as already present are left alone; and in-place chunks whenever the produced output does not overtake unread input. Per-chunk return values and output sizes are those of decoding that chunk alone, a corrupt chunk does not affect the results of its neighbours when per-chunk output sizes and return values are given, and neither the number of chunks, buffer offsets, omitted optional arguments, the processing order given by a permutation nor calls made at the same time by other threads change the result; the device interface starts only after the events it is given, and its own event means that the results are there.",
 ["inputs","configurations"],"every number of chunks, mixture of chunk kinds, permutation, offsets, presence of optional buffers, chunk size and stride",
 "Tests only call the one-chunk convenience wrapper; the multi-chunk formats appear only in a sample run by hand.",
 CL,
 [("per-chunk addressing and marker handling","decompress.cl:decompress"),("look-ahead buffer","decompress.cl:read_bits, decompress_core"),("argument setup","CLDeviceDecompressor::decompress, CLHostDecompressor::decompress")],
 [("lookAheadBuffer","words read ahead of the output position","decompress.cl")],
 ["output buffer, per-chunk return values and sizes"])
p("C15","The OpenCL program cache never changes results",
 "Whatever the program cache file contains - absent, unreadable, unwritable, empty, truncated, with corrupt metadata, with binaries that the OpenCL runtime rejects, or written for a different chunk size, stride, format or device - and whatever other processes do with it at the same time, constructing an OpenCL decompressor succeeds and its results are the same as without a cache. A cache written by one configuration is never used for another.",
 ["configurations","crash_points","histories","schedules"],"every state of the cache file and every sequence of configurations sharing it, including a writer interrupted at any byte, and every interleaving of processes which read and write it",
 "Tests always run with whatever file an earlier run left; corrupt and foreign files are never tried.",
 CL[:1],
 [("metadata comparison","program_cache::find"),("fallback to source","buildProgram exception handling")],
 [("cache file","metadata followed by program binaries","program_cache")],
 ["constructor outcome and subsequent decompression results"])
p("C16","Corruption of compressed data is never silently accepted",
 "When the reference or optimized decompressor reports success, the checksum stored in the stream is the format's 32-bit checksum of exactly the bytes returned; therefore any alteration of a compressed stream that changes the decoded bytes by a burst of at most 32 bits, or that alters the stored checksum, is reported as an error. The compressors store exactly that checksum for every input content, length and alignment.",
 ["inputs","fault_sequences"],"every input, every altered stream",
 "One test flips the stored checksum of one stream; checksum code paths for unaligned buffers, odd lengths and long inputs are not compared with an independent definition.",
 ["src/common/crc32.h","src/common/crc32table.h"]+SW+OPT[:2],
 [("checksum","crc32_be"),("comparison","end of sw842_decompress and optsw842_decompress"),("emission","end of sw842_compress and optsw842_compress")],
 [],["return value of decompressing altered streams; checksum field of compressed streams"])
p("C17","Redundancy is exploited: repeats, zeros and ring references",
 "Both compressors encode a block equal to its predecessor within a repeat operation (one operation per up to 64 such blocks) and an all-zero block with the zeros operation. The reference compressor encodes every other block with the cheapest template for which all references exist among the data still in the ring buffers, so its output is never larger than that encoding; the optimized compressor never spends more than a raw block on a block, and on data that recurs with a short period it encodes most blocks by reference.",
 ["inputs"],"every input",
 "Tests only check that the result decodes; a compressor that stopped using references would still pass.",
 SW[:1]+OPT[:1]+COM[-1:],
 [("repeat counting","sw842_compress/optsw842_compress main loop"),("template selection","check_template/process_next, find_index/get_template"),("ring update","update_hashtables/replace_hash")],
 [("hash tables","values currently in the ring","842_compress.*")],
 ["sizes and operations of the emitted streams"])
p("C18","Hardware back ends relay each call to the device exactly",
 "The cryptodev back end gives every thread at most one device session, set up on its first call and used for all its calls; descriptor, session and memory are released when the thread ends, or at once when any step of setting up fails, in which case the call returns that step's negative error and a later call tries again. A call becomes exactly one request with precisely its direction, addresses, total lengths, chunk lengths, capacities and skip marks, and returns the device's results unchanged; a call that the request cannot represent (too many chunks, lengths or strides beyond 32 bits, buffers not aligned as the device demands) is refused with -EINVAL, nothing being requested or changed. The AIX back end likewise passes each chunk that is not skipped to the accelerator service exactly once and reports its results. Neither ever touches the data itself, and the alignments both announce are ones the device accepts.",
 ["inputs","fault_sequences","histories"],"every sequence of calls by any number of threads, every set of parameters, every step failing",
 "The back ends are not even compiled where the header or service is missing, and no test makes a call fail.",
 ["src/cryptodev/842_interface.c","src/aix/aix.c","src/common/trivial_chunked.h"],
 [("session set-up and clean-up","c842_ctx_init, c842_ctx_deinit, get_thread_cryptodev_ctx"),("parameter checks and translation","c842_compress_chunked"),("announced alignment","get_hw842_implementation, get_aix842_implementation")],
 [("thread_ctx_key","each thread's session","842_interface.c")],
 ["system calls made and their parameters","return values, sizes and per-chunk results"])
p("C19","HLS tokenizer delivers every operation of a stream, and the end",
 "The tokenizer of the high-level-synthesis design, given a stream in 128-bit words the last of which is marked, writes exactly one token per operation, in order: the 5 operation bits and all parameter bits of that operation left-aligned in 69 bits, the rest zero. The end marker, or the first place where the remaining bits of the last word do not hold a complete operation, gives one final token with the end operation, and that token alone is marked last. It never reads more words than the stream has, loses no bit between words and always stops; after an operation that the hardware does not define only this last sentence holds.",
 ["inputs"],"every stream, with the boundaries of words anywhere in an operation",
 "The source is not part of the build, and its own main() runs one stream of one word.",
 ["src/hls/842_decomp.cpp"],
 [("shift register and refill","opcode_tokenizer"),("lengths of the operations","get_parameter_length")],
 [("input_buffer, input_buffer_bits","bits that have arrived and were not consumed","opcode_tokenizer")],
 ["tokens written and words read"])
p("C20","Threads of a stream are spread evenly among the NUMA nodes",
 "With the thread policy spread_threads_among_numa_nodes, every thread of a compression or decompression stream is confined to exactly the online processors of one NUMA node whose memory the process may use and which has processors, whatever the numbers of the nodes and processors, and the numbers of threads on any two such nodes differ by at most one, for each stream on its own. Where NUMA is not available or no such node exists no thread is confined. Where the system refuses to confine a thread, construction still succeeds. In every case the stream then processes data as with the default policy.",
 ["inputs","fault_sequences"],"every topology, number of threads and refused call",
 "Test machines have one node, and no test constructs a stream.",
 ["src/stream/numa_spread.cpp","src/stream/numa_spread.h","src/stream/DataCompressionStream.cpp","src/stream/DataDecompressionStream.cpp"],
 [("nodes and their processors","get_numa_cpusets"),("round robin","spread_threads_among_numa_nodes"),("use","constructors of both streams")],
 [("numa_cpusets","processors of each usable node, found once","numa_spread.cpp")],
 ["processors each thread is confined to","results of operations on the stream"])
p("C21","Nothing accumulates: calls, operations and objects give back what they took",
 "However a call of a compressor or decompressor ends (success, not enough space, malformed stream, skipped chunk), and however an operation or the life of a stream, a block or an OpenCL decompressor ends (complete, failed, cancelled, destroyed with work queued or in progress, construction refused half-way), the memory, file descriptors, threads and OpenCL objects that the library took for it are given back, except for what is handed to the user or kept within a fixed bound. So repeating the same calls, operations and lives of objects any number of times does not make the process hold more and more.",
 ["inputs","fault_sequences","histories"],"every call with every outcome, every history of operations and object lives, repeated arbitrarily often",
 "Tests end with the process, do not look at what is held, and hardly take the paths where things fail.",
 ["src/serial/842_compress.c","src/serial_optimized/842_compress.cpp","src/serial_optimized/bitstream.cpp","include/lib842/stream/block.h","src/stream/DataCompressionStream.cpp","src/stream/DataDecompressionStream.cpp","src/ocl/cl842decompress.cpp"],
 [("hash tables and state of a call","sw842_compress, optsw842_compress, stream_open, stream_close"),("buffers of blocks","Block::allocate_buffer, release_buffer"),("queue and threads","destructors of both streams"),("OpenCL buffers, events, programs","CLHostDecompressor::decompress, buildProgram")],
 [("_queue","blocks waiting","DataDecompressionStream"),("chunk_buffer","compressed chunks of a block","Block")],
 ["heap, descriptors, threads and OpenCL objects held after each repetition"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import re
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    print(x['id'],len(x['title']), x['statement'].count('. ')+1)

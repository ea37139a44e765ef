#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

API=["jxl/src/api/decoder.rs","jxl/src/api/inner/process.rs"]
CS=["jxl/src/api/inner/codestream_parser/mod.rs","jxl/src/api/inner/codestream_parser/frame_info.rs","jxl/src/api/inner/codestream_parser/image_info.rs"]
BOX=["jxl/src/api/inner/box_parser.rs"]
REN=["jxl/src/frame/render.rs","jxl/src/frame/decode.rs","jxl/src/render/low_memory_pipeline/mod.rs","jxl/src/render/low_memory_pipeline/group_scheduler.rs"]

p("P01","How the file is delivered never changes what is decoded",
"For a valid file, the basic info, color profiles, frame headers, pixels, scanned-frame list and file length that decoding produces are the same however the bytes arrive: all at once or split at any offsets, through any conforming input source (a slice, a buffered reader of any capacity, a custom source with short reads, short skips or inexact availability estimates), and through either decoder API. A delivery that stops anywhere and continues later yields the same result as an uninterrupted one.",
["inputs","schedules","histories"],
"every valid file, every split of it into deliveries, every pattern of short reads/skips and availability estimates, every placement of decoder calls between deliveries",
"Tests decode whole files and a few fixed chunk sizes from slices; the split points that matter (inside box headers, TOC, section ends, internal buffer wraps) and their combination with short reads are not enumerable by hand.",
API+CS+BOX+["jxl/src/api/input.rs"],
[("small staging buffer","jxl/src/api/inner/process.rs SmallBuffer"),("resumable parsing and section buffering","jxl/src/api/inner/codestream_parser/*"),("codestream extraction from boxes","jxl/src/api/inner/box_parser.rs get_more_codestream")],
["JxlDecoder::process results, buffers, basic_info, scanned_frames, file_length"])

p("P02","Parallel decoding gives the sequential result under every schedule",
"For every file and every parallel runner that runs each task exactly once, on any number of threads, in any order and under any interleaving of those threads, decoding produces byte-identical pixels and identical metadata to single-threaded decoding. No interleaving makes decoding deadlock, run forever, panic or fail.",
["schedules","inputs","configurations"],
"every interleaving of the runner's threads at their synchronisation points, every task order, every thread count and hardware-thread setting, every file",
"The existing comparison runs five random schedules per file for one task-distribution shape; interleavings that lose a border, hand a row buffer to two tasks or miss a ready group are rare.",
REN+["jxl/src/util/sync.rs","jxl/src/api/decoder.rs"],
[("group scheduling and ready counters","jxl/src/render/low_memory_pipeline/group_scheduler.rs"),("parallel group decode","jxl/src/frame/render.rs decode_and_render_hf_groups"),("lock/atomic seam","jxl/src/util/sync.rs")],
["output buffers after each frame, error results"])

p("P03","Asking for a preview never changes the final image",
"Requesting the pixels decoded so far, at any moments, any number of times, with any runner, and whether the request succeeds or is refused (for instance because of unsuitable buffers), never changes the final pixels of the current or any later frame, nor makes a decode fail that would have succeeded without the request.",
["histories","schedules","inputs"],
"every set of flush points in every delivery history, valid or refused, for every file",
"Tests flush at one chunk size and compare one final image; state that a preview consumes or leaves half-drawn shows only for particular flush points, coding modes and frame sequences.",
["jxl/src/frame/render.rs","jxl/src/frame/decode.rs","jxl/src/frame/lf_preview.rs"]+CS,
[("flush path","jxl/src/api/inner/codestream_parser/mod.rs"),("flush rendering and re-rendering of groups","jxl/src/frame/render.rs decode_and_render_hf_groups")],
["final output buffers compared with a decode that never flushes"])

p("P04","Preview reports are truthful and previews are reproducible",
"When a preview request reports that nothing new was drawn, not one byte of the caller's buffers has changed since the previous preview request. Repeating a request with no data in between changes nothing, and from the third on reports nothing new. What a preview reports and draws depends only on the calls made and the data the decoder has used so far, never on the number of threads, their schedule or the layout of the buffers, nor, when the decoder has used all it was given and asked for more, on how the input was read.",
["histories","schedules","inputs"],
"every flush point in every delivery history, every schedule of the runner",
"Tests check the boolean at a handful of points of one delivery sequence; whether it is right depends on which groups are complete at that point and on earlier previews.",
["jxl/src/frame/render.rs","jxl/src/frame/mod.rs","jxl/src/api/inner/process.rs"],
[("new-pixels tracking","jxl/src/frame/render.rs"),("flush result","jxl/src/api/inner/process.rs flush_pixels")],
["flush_pixels result and the buffers before and after it"])

p("P05","Corrupt input fails cleanly under any delivery and schedule",
"Whatever bytes are fed in, in whatever pieces, with any schedule of decoding threads and any sequence of legal API calls, the decoder returns within bounded work with success, a request for more input or an error; it never panics, aborts, deadlocks or loops without consuming input. Frames it reports as complete are the same for every schedule and every split of the same bytes.",
["inputs","schedules","fault_sequences"],
"every byte string (in particular every corruption of a valid file by flipped, lost, duplicated or overwritten bytes), every split, every schedule",
"Regression tests hold a few known bad files, decoded in one piece; corruption met half-way through a resumable or parallel step is what they never reach.",
API+CS+BOX+["jxl/src/frame/mod.rs","jxl/src/entropy_coding/decode.rs","jxl/src/headers/toc.rs"],
[("error propagation from tasks","jxl/src/frame/render.rs"),("bounds and limits in parsers","jxl/src/headers, jxl/src/entropy_coding, jxl/src/frame/modular")],
["process/flush results; panics; calls and steps per delivered byte"])

p("P06","Truncated input: no false completion, prompt progress, exact resume",
"If only a prefix of a file has been delivered, the decoder completes exactly the frames that are complete in that prefix, with their final pixels, then asks for more input; it never reports a frame or file complete whose data is missing, whether the frame is decoded or skipped. A caller that delivers just the number of bytes asked for at each request always reaches the end of a valid file, and once all bytes are there decoding finishes within a bounded number of calls.",
["crash_points","inputs","histories"],
"every truncation point of every file, for every kind of source, and every later continuation",
"Tests truncate at no point or at a few; an off-by-one at a section, box or frame boundary needs exactly that prefix length.",
API+CS+BOX+["jxl/src/api/input.rs","jxl/src/api/mod.rs"],
[("size hints","jxl/src/api/mod.rs ProcessingResult::new"),("section completeness","jxl/src/api/inner/codestream_parser/frame_info.rs"),("skip past delivered data","jxl/src/api/input.rs skip")],
["process/skip_frame results after each delivery"])

p("P07","Input errors surface as errors, never as wrong data",
"If the input source fails at any call, transiently or for good, the decoder call in progress reports an error, or, when the failure passed and nothing was lost by it, goes on to exactly the right result; it never completes with missing data, loops or panics; frames completed before the failure are correct and a fresh decode of the same file succeeds. With the low-level API, repeating the call after a transient failure either continues to exactly the right result or keeps reporting an error; it never panics and never delivers wrong pixels.",
["fault_sequences","crash_points"],
"every position of a failing source call and every kind of I/O error in every delivery history, and every number of retries",
"No test uses a source that fails; the failing call has to fall between two steps that must happen together.",
API+BOX+CS+["jxl/src/api/input.rs"],
[("source calls and their error paths","jxl/src/api/inner/box_parser.rs, jxl/src/api/inner/process.rs, jxl/src/api/inner/codestream_parser/mod.rs")],
["process results with a fault-injecting input"])

p("P08","Every seek history shows the frames sequential playback shows",
"After any history of playing, skipping and seeking within an animation, the frame decoded at visible position k has the pixels, name, duration and size it has in uninterrupted sequential playback, provided the input is continued at the offset the seek target states. Playing on after a seek shows the right frames as long as none of them has a seek target that starts before the point the seek resumed from (such a frame needs a seek of its own). This holds for every frame listed by a scan or by partial playback, bare or boxed files, any delivery after the seek, and seeks in the middle of a frame.",
["histories","inputs"],
"every sequence of play/skip/seek operations over every animation, its container packaging and delivery",
"Tests seek to each frame of a few animations right after a full scan; stale state from interrupted frames, reference slots and box state at the seek position needs longer histories.",
["jxl/src/api/decoder.rs","jxl/src/api/inner/mod.rs","jxl/src/api/inner/codestream_parser/frame_scan_info.rs"]+BOX+["jxl/src/api/inner/codestream_parser/mod.rs"],
[("seek targets and keyframe closure","jxl/src/api/inner/codestream_parser/frame_scan_info.rs"),("box parser checkpoints","jxl/src/api/inner/box_parser.rs"),("state reset","jxl/src/api/inner/codestream_parser/mod.rs start_new_frame")],
["frames after start_new_frame compared with sequential playback"])

p("P09","Skipping and scanning see the same frames as decoding",
"Skipping any subset of frames, before their data arrives or part-way through it, leaves the pixels and metadata of the frames that are decoded unchanged, and the list of frames (index, duration, name, offsets, last and key flags) is the same whether frames are decoded, skipped or only scanned. A scan-only pass never needs pixel buffers and reports exactly the frames playback shows.",
["histories","inputs"],
"every subset of skipped frames, every moment of the skip within a frame's delivery, every animation",
"Tests skip one or all frames of a few files; a skipped frame matters only when a later one depends on it or when the skip interrupts a half-read frame.",
["jxl/src/api/decoder.rs","jxl/src/api/inner/codestream_parser/mod.rs","jxl/src/api/inner/codestream_parser/frame_info.rs","jxl/src/api/inner/codestream_parser/frame_scan_info.rs","jxl/src/frame/mod.rs"],
[("frame skipping","jxl/src/api/inner/codestream_parser/mod.rs"),("scan list","jxl/src/api/inner/codestream_parser/frame_scan_info.rs")],
["frames, scanned_frames"])

p("P10","Container packaging is transparent",
"A codestream decodes to the same image, frame list and frame offsets (mapped to their place in the file) whether it is bare or in a container: in one box or split into numbered parts at any offsets, in order or (where the format version allows it) out of order, between and after boxes of other types and any legal size encoding, under any delivery. The reported file length, the reported frame offsets and the acceptance of the file depend on its bytes only, never on how they were delivered.",
["inputs","schedules","histories"],
"every codestream, every legal packaging of it, every delivery of the packaged bytes",
"Tests contain a few packaged files decoded from one slice; part boundaries inside headers or sections, empty parts, out-of-order arrival and chunked delivery multiply.",
BOX+["jxl/src/api/inner/codestream_parser/mod.rs","jxl/src/api/inner/codestream_parser/frame_scan_info.rs","jxl/src/api/inner/process.rs","jxl/src/api/input.rs"],
[("box state machine, part reordering","jxl/src/api/inner/box_parser.rs"),("file offset bookkeeping","jxl/src/api/inner/box_parser.rs checkpoints")],
["decode results, file_length, scanned_frames offsets"])

p("P11","Output goes exactly where the caller asked",
"Every byte of every row of the supplied buffers is written by the time a frame is complete, and at no time, on no thread and on no path (decoding, preview, error, drop) is a byte outside those rows written; the result does not depend on the previous contents, the row stride or the number of extra bytes around rows. This holds for every supported pixel layout, every image and group geometry, every schedule, and after errors.",
["inputs","schedules","fault_sequences","configurations"],
"every image size, orientation, pixel format, stride and initial content, every schedule and failure point",
"Tests compare contiguous buffers; stray writes into padding, neighbouring rows written by two threads, and unwritten bytes that happen to hold the right value are invisible there.",
["jxl/src/image/output_buffer.rs","jxl/src/render/save.rs","jxl/src/render/buffer_splitter.rs","jxl/src/render/low_memory_pipeline/save","jxl/src/api/decoder.rs"],
[("buffer splitting among tasks","jxl/src/render/buffer_splitter.rs"),("orientation-aware saving","jxl/src/render/low_memory_pipeline/save, jxl/src/render/save.rs")],
["guard bytes around every output row; decodes repeated with different fills"])

p("P12","Memory use is bounded by the data delivered and the limits set",
"While headers are being parsed the decoder's memory stays within a fixed allowance (plus the size of one embedded color profile, which may claim up to 256 MiB) plus a fixed multiple of the bytes delivered so far, and while frames are being decoded within that plus a fixed multiple of the image and frame areas, whatever the input claims. A configured sample limit refuses images and frames with more samples than the limit before their memory is allocated, and refuses none with fewer (counting widths below 16 as 16). Memory does not grow with the number of frames played, skipped, seeked or previewed, nor with the number of input calls.",
["inputs","histories","fault_sequences"],
"every valid or corrupt file, every delivery granularity, every length of playback",
"Tests never measure memory; growth shows over long histories, and over-allocation for claims in corrupt headers or length fields.",
["jxl/src/api/inner/process.rs","jxl/src/api/inner/codestream_parser/frame_info.rs","jxl/src/api/options.rs","jxl/src/image/internal.rs","jxl/src/frame/mod.rs"],
[("buffer growth by delivered data","jxl/src/api/inner/codestream_parser/frame_info.rs"),("sample limit","jxl/src/api/inner/codestream_parser/*")],
["a counting allocator below the decoder, per decoder call"])

p("P13","Running out of memory for image data is an error, not a crash",
"If an allocation for pixel, coefficient or section data fails at any point, the decoder call in progress returns an error; it does not panic, write outside buffers, leak, or report completion with missing pixels. The process stays usable: the decoder can be dropped and a later decode with memory available gives the right result.",
["fault_sequences","crash_points"],
"every position of a failing large allocation in every delivery history and schedule",
"Tests never fail an allocation.",
["jxl/src/image/internal.rs","jxl/src/util/vec_helpers.rs","jxl/src/render/low_memory_pipeline/row_buffers.rs","jxl/src/api/inner/codestream_parser/frame_info.rs","jxl/src/frame/group.rs"],
[("fallible allocation of images and buffers","jxl/src/image/internal.rs, jxl/src/util/vec_helpers.rs")],
["process results with a failing allocator"])

p("P14","A failed or refused decoding task is never lost",
"If the parallel runner refuses a job, loses its workers part-way, or reports failure after all tasks ran, or if a task itself fails, the decoder call in progress returns an error instead of reporting a completed frame, and does so without panicking or deadlocking, whatever the schedule. Tasks handed to the runner are independent of which thread runs them and of the order in which they run, and a decoder call never returns while a task it handed out can still touch the caller's buffers.",
["fault_sequences","schedules"],
"every runner failure at every call of the runner and after every number of tasks; every failing task; every schedule",
"Tests use well-behaved runners; a swallowed task error shows only when one fails in the right place.",
["jxl/src/api/decoder.rs","jxl/src/frame/render.rs","jxl/src/util/mod.rs","jxl/src/api/inner/codestream_parser/mod.rs"],
[("runner contract","jxl/src/api/decoder.rs JxlParallelRunner"),("use of the runner","jxl/src/frame/render.rs")],
["process results with a faulty runner"])

p("P15","Decoders do not influence each other",
"Any number of decoders used at the same time, from any threads and in any interleaving of their calls, each produce exactly the results they produce alone, including when some of them fail, are abandoned or are given corrupt data. A decoder may be moved to another thread between any two calls.",
["schedules","histories"],
"every interleaving of the calls of several decoders on any threads",
"Tests use one decoder at a time per thread; leakage through process-wide tables, pools or thread-local state needs a particular mix.",
["jxl/src/api/decoder.rs","jxl/src/util","jxl/src/render","jxl/src/entropy_coding"],
[("process-wide caches and lazily built tables","OnceLock/thread_local users in jxl/src and jxl_transforms/src")],
["results of interleaved decoders compared with solo runs"])

p("P16","A decoder can be abandoned at any moment",
"Dropping a decoder after any sequence of calls, in any state, mid-frame, after errors or refused calls, neither panics nor writes to the caller's buffers, and returns all the memory the decoder took. Starting over with a new decoder on the same file then gives the right result.",
["crash_points","histories"],
"every point of every history",
"Tests drop decoders only when finished or failed in a few ways.",
["jxl/src/api/decoder.rs","jxl/src/api/inner/mod.rs","jxl/src/frame/mod.rs","jxl/src/render/low_memory_pipeline/mod.rs"],
[("ownership of frame and pipeline state","jxl/src/frame/mod.rs, jxl/src/render")],
["counting allocator at drop; guard bytes; a later decode"])

p("P17","Each frame arrives in the format asked for, whatever came before",
"The pixels of a frame are those a decoder configured from the start with the format in force for that frame would deliver, whatever formats were used for earlier frames, for earlier previews, or before a seek, and whether earlier frames were decoded or skipped. Changing the format never changes which frames are shown, their metadata, or whether decoding succeeds. (Where the output colour profile follows from the format, as for XYB images whose own profile cannot be produced, it is settled by the format in force when the first frame is decoded and stays.)",
["histories","configurations"],
"every sequence of format changes between frames of every animation, in every delivery history",
"Tests set one format per decode or change it once.",
["jxl/src/api/decoder.rs","jxl/src/api/inner/mod.rs","jxl/src/api/inner/codestream_parser/mod.rs","jxl/src/frame/render.rs","jxl/src/api/data_types.rs"],
[("format validation and pipeline rebuild","jxl/src/api/inner/codestream_parser/*, jxl/src/frame/render.rs")],
["frames compared per format with fixed-format decodes"])

p("P18","The command-line decoder reports success only for complete output",
"If the command-line tool's output writer reports success, the bytes handed to the operating system are the complete, correct output file; if any write, including the last one when the file is finished, fails or the disk fills up at any byte, the tool reports an error. Short or interrupted writes that the system completes on retry do not change the output.",
["fault_sequences","crash_points"],
"every output format and image, every position and kind of write fault",
"Tests write to memory or a healthy disk; errors surfacing only when buffered data is flushed at the end need a disk that fills at that moment.",
["jxl_cli/src/enc/mod.rs","jxl_cli/src/enc/png.rs","jxl_cli/src/enc/pnm.rs","jxl_cli/src/enc/numpy.rs","jxl_cli/src/enc/exr.rs"],
[("buffered writers and encoder finalisation","jxl_cli/src/enc")],
["result of saving vs bytes that reached the (simulated) disk"])

p("P19","Command-line decoding is independent of how its input streams in",
"Decoding through the command-line layer gives the same frames, metadata and saved files whatever the sizes of its reads, with or without intermediate rendering, and for any thread count. On truncated or failing input it returns an error, or, when partial files are allowed, exactly the frames available, never a success with silently missing or foreign data.",
["inputs","schedules","crash_points","fault_sequences"],
"every read pattern, render interval, truncation point and input fault, for every file",
"Tests run the layer on whole files; partial and interrupted input through it is not covered.",
["jxl_cli/src/dec/mod.rs","jxl_cli/src/main.rs","jxl/src/api/input.rs"],
[("decode loop, partial rendering","jxl_cli/src/dec/mod.rs")],
["DecodeOutput of decode_frames"])

p("P20","Animation playback follows the reference-slot model",
"Every shown frame of an animation or layered image equals the composition that a simple model computes from the frames decoded so far: each frame's own pixels placed at its crop, blended with its declared source slot, saved to its declared slot, with durations and names as declared, hidden frames contributing only through slots. This holds in every playback history (deliveries, skips, seeks, previews, schedules).",
["histories","inputs","schedules"],
"every frame sequence (crops, blend modes, sources, save slots, zero durations, empty regions) and every playback history over it",
"Tests use a few dozen recorded animations; the state carried from frame to frame has many more histories, and recorded files have no independent model.",
["jxl/src/render/stages/blending.rs","jxl/src/render/stages/extend.rs","jxl/src/frame/mod.rs","jxl/src/frame/decode.rs","jxl/src/features/blending.rs","jxl/src/api/inner/codestream_parser/frame_scan_info.rs"],
[("reference slots carried between frames","jxl/src/frame/mod.rs DecoderState"),("blending and extension stages","jxl/src/render/stages")],
["shown frames compared with an independent compositing model on generated files"])

NA=[]
p("P21","Decoded pixels match the JPEG XL specification",
"For every conforming codestream, decoded pixels are within the conformance tolerances of ISO/IEC 18181 of the ideal result, exactly for lossless coding.",
["inputs"],"every conforming codestream",
"Tests compare a fixed set of conformance images.",
["jxl/src/frame","jxl/src/render","jxl_transforms/src","jxl/src/color"],[("the whole decoding pipeline","jxl/src")])
p("P22","All CPU feature levels give equivalent results",
"Decoding gives equal results (up to float rounding in lossy coding, exactly in lossless coding) on every supported instruction set, including the scalar fallback.",
["configurations","inputs"],"every file, every instruction set",
"Tests compare levels for selected kernels and random inputs.",
["jxl_simd/src","jxl_transforms/src","jxl/src/render/stages"],[("SIMD dispatch","jxl_simd/src")])
p("P23","Color profiles and conversions are correct",
"Embedded ICC profiles are reproduced bit-exactly, generated profiles describe the output encoding, and conversions to a requested output profile are those the profiles define.",
["inputs","configurations"],"every profile and color encoding",
"Tests contain a few profiles.",
["jxl/src/icc","jxl/src/api/color.rs","jxl/src/color","jxl_cms/src"],[("ICC decoding and synthesis","jxl/src/icc, jxl/src/api/color.rs"),("CMS","jxl_cms/src")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    for fn in x["anchors"]["files"]:
        if not os.path.exists("/repo/"+fn): print("missing",x["id"],fn)
